package scorex.util;
import java.util.Collection;
public class ArrayList<E> extends java.util.ArrayList<E> {
    public ArrayList() {}
    public ArrayList(int n) { super(n); }
    public ArrayList(Collection<? extends E> c) { super(c); }
}
