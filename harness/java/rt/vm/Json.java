package vm;
import java.math.BigInteger;
import java.util.*;
/** Just enough JSON. */
public class Json {
    private final String s; private int p;
    private Json(String s) { this.s = s; }
    public static Object parse(String s) { Json j = new Json(s); Object o = j.val(); return o; }
    private void ws() { while (p < s.length() && s.charAt(p) <= ' ') p++; }
    private Object val() {
        ws();
        char c = s.charAt(p);
        if (c == '{') {
            Map<String, Object> m = new LinkedHashMap<>();
            p++; ws();
            if (s.charAt(p) == '}') { p++; return m; }
            while (true) {
                ws(); String k = str(); ws(); p++;
                m.put(k, val()); ws();
                if (s.charAt(p++) == '}') return m;
            }
        }
        if (c == '[') {
            List<Object> l = new ArrayList<>();
            p++; ws();
            if (s.charAt(p) == ']') { p++; return l; }
            while (true) { l.add(val()); ws(); if (s.charAt(p++) == ']') return l; }
        }
        if (c == '"') return str();
        if (s.startsWith("true", p)) { p += 4; return true; }
        if (s.startsWith("false", p)) { p += 5; return false; }
        if (s.startsWith("null", p)) { p += 4; return null; }
        int b = p;
        while (p < s.length() && "+-0123456789.eE".indexOf(s.charAt(p)) >= 0) p++;
        return Long.parseLong(s.substring(b, p));
    }
    private String str() {
        StringBuilder sb = new StringBuilder();
        for (p++; s.charAt(p) != '"'; p++) {
            char c = s.charAt(p);
            if (c == '\\') {
                c = s.charAt(++p);
                if (c == 'n') c = '\n'; else if (c == 't') c = '\t';
                else if (c == 'u') { c = (char) Integer.parseInt(s.substring(p + 1, p + 5), 16); p += 4; }
            }
            sb.append(c);
        }
        p++;
        return sb.toString();
    }
    public static String out(Object o) { StringBuilder b = new StringBuilder(); put(b, o); return b.toString(); }
    private static void put(StringBuilder b, Object o) {
        if (o instanceof Map) {
            String sep = "{";
            for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) { b.append(sep); put(b, e.getKey().toString()); b.append(':'); put(b, e.getValue()); sep = ","; }
            b.append(sep.equals("{") ? "{}" : "}");
        } else if (o instanceof Collection) {
            String sep = "[";
            for (Object x : (Collection<?>) o) { b.append(sep); put(b, x); sep = ","; }
            b.append(sep.equals("[") ? "[]" : "]");
        } else if (o instanceof String) {
            b.append('"');
            for (char c : ((String) o).toCharArray()) {
                if (c == '"' || c == '\\') b.append('\\').append(c);
                else if (c < ' ' || c > '~') b.append(String.format("\\u%04x", (int) c));
                else b.append(c);
            }
            b.append('"');
        } else b.append(o);
    }
    public static Map<String, Object> ev(Object... kv) {
        Map<String, Object> m = new LinkedHashMap<>();
        for (int i = 0; i < kv.length; i += 2) m.put((String) kv[i], kv[i + 1]);
        return m;
    }
}
