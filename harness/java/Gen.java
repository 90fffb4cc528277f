import javax.annotation.processing.*;
import javax.lang.model.SourceVersion;
import javax.lang.model.element.*;
import javax.lang.model.type.*;
import java.io.Writer;
import java.util.*;
/** Generates XScoreInterface for the interfaces annotated with ScoreInterface, as the real processor does. */
@SupportedAnnotationTypes("foundation.icon.score.client.ScoreInterface")
public class Gen extends AbstractProcessor {
    @Override public SourceVersion getSupportedSourceVersion() { return SourceVersion.latest(); }
    static String box(TypeMirror t) {
        switch (t.getKind()) {
            case BOOLEAN: return "Boolean"; case INT: return "Integer"; case LONG: return "Long"; case BYTE: return "Byte";
            case SHORT: return "Short"; case CHAR: return "Character";
        }
        return t.toString();
    }
    static boolean has(Element e, String n) {
        for (AnnotationMirror a : e.getAnnotationMirrors()) if (a.getAnnotationType().toString().equals("score.annotation." + n)) return true;
        return false;
    }
    @Override public boolean process(Set<? extends TypeElement> as, RoundEnvironment env) {
        for (TypeElement a : as) for (Element e : env.getElementsAnnotatedWith(a)) try {
            String pkg = processingEnv.getElementUtils().getPackageOf(e).toString(), cn = e.getSimpleName() + "ScoreInterface";
            if (processingEnv.getElementUtils().getTypeElement(pkg + "." + cn) != null) continue;
            StringBuilder b = new StringBuilder("package " + pkg + ";\nimport score.*;\nimport java.math.BigInteger;\npublic final class " + cn
                + " implements " + e + " {\n final Address address;\n public " + cn + "(Address a) { address = a; }\n public Address _getAddress() { return address; }\n");
            for (Element x : processingEnv.getElementUtils().getAllMembers((TypeElement) e)) {
                if (x.getKind() != ElementKind.METHOD || x.getEnclosingElement().toString().equals("java.lang.Object")) continue;
                ExecutableElement m = (ExecutableElement) x;
                StringBuilder ps = new StringBuilder(), cs = new StringBuilder();
                for (VariableElement v : m.getParameters()) {
                    ps.append(ps.length() == 0 ? "" : ", ").append(v.asType()).append(" ").append(v.getSimpleName());
                    cs.append(", ").append(v.asType().getKind() == TypeKind.ARRAY ? "(Object) " : "").append(v.getSimpleName());
                }
                String n = m.getSimpleName().toString(), rt = m.getReturnType().toString();
                if (has(m, "EventLog")) { b.append(" public " + rt + " " + n + "(" + ps + ") { throw new RuntimeException(); }\n"); continue; }
                boolean vd = m.getReturnType().getKind() == TypeKind.VOID;
                String pre = vd ? "Context.call(" : "return Context.call(" + box(m.getReturnType()) + ".class, ";
                if (rt.equals("java.util.Map")) pre = "return (java.util.Map) Context.call(";
                b.append(" public " + rt + " " + n + "(" + ps + ") { " + pre + "address, \"" + n + "\"" + cs + "); }\n");
                if (has(m, "Payable")) b.append(" public " + rt + " " + n + "(BigInteger valueForPayable" + (ps.length() == 0 ? "" : ", ") + ps + ") { " + pre + "valueForPayable, address, \"" + n + "\"" + cs + "); }\n");
            }
            b.append("}\n");
            try (Writer w = processingEnv.getFiler().createSourceFile(pkg + "." + cn, e).openWriter()) { w.write(b.toString()); }
        } catch (java.io.IOException x) { throw new RuntimeException(x); }
        return false;
    }
}
