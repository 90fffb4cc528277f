package score.annotation; import java.lang.annotation.*; @Retention(RetentionPolicy.RUNTIME) public @interface EventLog { int indexed() default 0; }
