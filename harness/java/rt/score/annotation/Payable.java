package score.annotation; import java.lang.annotation.*; @Retention(RetentionPolicy.RUNTIME) public @interface Payable {  }
