package score;
public class RevertedException extends RuntimeException {
    public RevertedException() {}
    public RevertedException(String m) { super(m); }
}
