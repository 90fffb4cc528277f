package score;
import java.math.BigInteger;
public interface ObjectWriter {
    void write(boolean v); void write(byte v); void write(short v); void write(char v); void write(int v);
    void write(float v); void write(long v); void write(double v); void write(BigInteger v); void write(String v);
    void write(byte[] v); void write(Address v); void write(Object v);
    void writeNullable(Object v); void write(Object... v); void writeNullable(Object... v); void writeNull();
    void beginList(int n); void beginNullableList(int n); void writeListOf(Object... v); void writeListOfNullable(Object... v);
    void beginMap(int n); void beginNullableMap(int n); void end();
}
