package score.annotation; import java.lang.annotation.*; @Retention(RetentionPolicy.RUNTIME) public @interface External { boolean readonly() default false; }
