import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC override of module FastJson: newline-delimited JSON (objects, arrays, strings, integers, booleans). */
public class FastJson {
  private final byte[] b;
  private int i;
  private FastJson(byte[] b) { this.b = b; }

  public static Value LoadNd(Value file) throws Exception {
    FastJson p = new FastJson(Files.readAllBytes(Paths.get(((StringValue) file).val.toString())));
    List<Value> out = new ArrayList<>();
    while (true) {
      p.ws();
      if (p.i >= p.b.length) break;
      out.add(p.value());
    }
    return new TupleValue(out.toArray(new Value[0]));
  }
  private void ws() { while (i < b.length && (b[i] == ' ' || b[i] == '\n' || b[i] == '\r' || b[i] == '\t')) i++; }
  private Value value() {
    ws();
    switch (b[i]) {
      case '{': {
        i++;
        List<UniqueString> ks = new ArrayList<>();
        List<Value> vs = new ArrayList<>();
        ws();
        if (b[i] == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], false); }
        while (true) {
          ws();
          ks.add(UniqueString.uniqueStringOf(string()));
          ws();
          expect(':');
          vs.add(value());
          ws();
          if (b[i] == ',') { i++; continue; }
          expect('}');
          break;
        }
        RecordValue r = new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
        r.normalize();
        return r;
      }
      case '[': {
        i++;
        List<Value> vs = new ArrayList<>(8);
        ws();
        if (b[i] == ']') { i++; return new TupleValue(new Value[0]); }
        while (true) {
          vs.add(value());
          ws();
          if (b[i] == ',') { i++; continue; }
          expect(']');
          break;
        }
        return new TupleValue(vs.toArray(new Value[0]));
      }
      case '"': return new StringValue(string());
      case 't': i += 4; return BoolValue.ValTrue;
      case 'f': i += 5; return BoolValue.ValFalse;
      default: {
        boolean neg = b[i] == '-';
        if (neg) i++;
        int s = i;
        long v = 0;
        while (i < b.length && b[i] >= '0' && b[i] <= '9') v = v * 10 + (b[i++] - '0');
        if (i == s || v > Integer.MAX_VALUE) throw new RuntimeException("bad JSON number at byte " + s);
        return IntValue.gen((int) (neg ? -v : v));
      }
    }
  }
  private void expect(char c) {
    if (b[i] != c) throw new RuntimeException("bad JSON at byte " + i);
    i++;
  }
  private String string() {
    expect('"');
    StringBuilder sb = null;
    int s = i;
    while (b[i] != '"') {
      if (b[i] == '\\') {
        if (sb == null) sb = new StringBuilder(new String(b, s, i - s, StandardCharsets.UTF_8));
        else sb.append(new String(b, s, i - s, StandardCharsets.UTF_8));
        char c = (char) b[i + 1];
        i += 2;
        switch (c) {
          case 'n': sb.append('\n'); break;
          case 't': sb.append('\t'); break;
          case 'r': sb.append('\r'); break;
          case 'b': sb.append('\b'); break;
          case 'f': sb.append('\f'); break;
          case 'u': sb.append((char) Integer.parseInt(new String(b, i, 4, StandardCharsets.US_ASCII), 16)); i += 4; break;
          default: sb.append(c);
        }
        s = i;
      } else i++;
    }
    String t = new String(b, s, i - s, StandardCharsets.UTF_8);
    i++;
    return sb == null ? t : sb.append(t).toString();
  }
}
