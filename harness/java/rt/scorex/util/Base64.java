package scorex.util;
public class Base64 {
    public static java.util.Base64.Decoder getUrlDecoder() { return java.util.Base64.getUrlDecoder(); }
    public static java.util.Base64.Encoder getUrlEncoder() { return java.util.Base64.getUrlEncoder(); }
    public static java.util.Base64.Decoder getDecoder() { return java.util.Base64.getDecoder(); }
    public static java.util.Base64.Encoder getEncoder() { return java.util.Base64.getEncoder(); }
}
