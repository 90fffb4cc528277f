package foundation.icon.score.client; import java.lang.annotation.*; @Retention(RetentionPolicy.RUNTIME) public @interface ScoreInterface { String suffix() default ""; }
