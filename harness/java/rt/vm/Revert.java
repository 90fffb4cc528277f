package vm;
/** Context.revert: cannot be caught by the contract that reverts. */
public class Revert extends Error {
    public final int code;
    public Revert(int code, String m) { super(m); this.code = code; }
}
