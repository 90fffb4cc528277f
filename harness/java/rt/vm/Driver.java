package vm;
import java.io.IOException;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
/** driver in out seed: each scenario becomes a list of events. */
public class Driver {
    public interface Run { void run(Object scenario, long seed, List<Object> trace) throws Exception; }
    public static void main(String[] a, Run r) throws Exception {
        List<?> scn = (List<?>) Json.parse(Files.readString(Path.of(a[0])));
        long seed = Long.parseLong(a[2]);
        List<List<Object>> res = new ArrayList<>();
        ExecutorService ex = Executors.newFixedThreadPool(8);
        List<Future<?>> fs = new ArrayList<>();
        for (int i = 0; i < scn.size(); i++) {
            List<Object> t = new ArrayList<>();
            res.add(t);
            Object s = scn.get(i);
            long k = seed * 1000003 + i;
            fs.add(ex.submit(() -> {
                // a contract that left the path of the specification can make the rest of the history impossible
                try { r.run(s, k, t); }
                catch (Exception x) { x.printStackTrace(); t.add(Json.ev("e", "aborted", "why", String.valueOf(x))); }
                return null;
            }));
        }
        try { for (Future<?> f : fs) f.get(); }
        catch (ExecutionException x) { x.printStackTrace(); System.exit(3); }
        ex.shutdown();
        Files.writeString(Path.of(a[1]), Json.out(res));
    }
}
