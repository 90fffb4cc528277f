package foundation.icon.score.client; import java.lang.annotation.*; @Retention(RetentionPolicy.RUNTIME) public @interface ScoreClient { String suffix() default ""; }
