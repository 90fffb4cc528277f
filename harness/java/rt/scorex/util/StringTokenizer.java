package scorex.util;
public class StringTokenizer extends java.util.StringTokenizer {
    public StringTokenizer(String s, String d) { super(s, d); }
}
