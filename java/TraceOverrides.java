import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Reads recorded executions once (TLC would read them once per worker). */
public class TraceOverrides implements ITLCOverrides {
  @Override
  public Class[] get() { return new Class[] { TraceOverrides.class }; }

  private static final Map<String, Value> cache = new HashMap<>();

  @TLAPlusOperator(identifier = "LoadRecs", module = "TraceIO", warn = false)
  public static synchronized Value loadRecs(final StringValue path) throws IOException {
    final String p = path.val.toString();
    Value v = cache.get(p);
    if (v == null) {
      final byte[] b = Files.readAllBytes(Paths.get(p));
      final ArrayList<Value> recs = new ArrayList<>();
      final Parser ps = new Parser(b);
      while (ps.more()) recs.add(ps.value());
      v = new TupleValue(recs.toArray(new Value[0]));
      v.deepNormalize();
      cache.put(p, v);
    }
    return v;
  }

  private static final IntValue[] INTS = new IntValue[32768];
  static { for (int i = 0; i < INTS.length; i++) INTS[i] = IntValue.gen(i); }

  private static final class Parser {
    final byte[] b; int i = 0;
    Parser(byte[] b) { this.b = b; }
    void ws() { while (i < b.length && (b[i] == ' ' || b[i] == '\n' || b[i] == '\r' || b[i] == '\t')) i++; }
    boolean more() { ws(); return i < b.length; }
    Value value() {
      ws();
      switch (b[i]) {
      case '[': {
        i++;
        final ArrayList<Value> l = new ArrayList<>();
        ws();
        if (b[i] == ']') { i++; return new TupleValue(new Value[0]); }
        while (true) {
          l.add(value()); ws();
          if (b[i++] == ']') break;
        }
        return new TupleValue(l.toArray(new Value[0]));
      }
      case '{': {
        i++;
        final ArrayList<UniqueString> n = new ArrayList<>();
        final ArrayList<Value> l = new ArrayList<>();
        ws();
        if (b[i] == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], false); }
        while (true) {
          ws();
          n.add(UniqueString.uniqueStringOf(str())); ws();
          i++; // :
          l.add(value()); ws();
          if (b[i++] == '}') break;
        }
        return new RecordValue(n.toArray(new UniqueString[0]), l.toArray(new Value[0]), false);
      }
      case '"': return new StringValue(str());
      case 't': i += 4; return BoolValue.ValTrue;
      case 'f': i += 5; return BoolValue.ValFalse;
      case 'n': i += 4; return new StringValue("null");
      default: {
        boolean neg = false;
        if (b[i] == '-') { neg = true; i++; }
        if (b[i] < '0' || b[i] > '9') throw new RuntimeException("bad JSON at " + i);
        long x = 0;
        while (i < b.length && b[i] >= '0' && b[i] <= '9') x = x * 10 + (b[i++] - '0');
        if (x > Integer.MAX_VALUE) throw new RuntimeException("number too large at " + i);
        if (!neg && x < INTS.length) return INTS[(int) x];
        return IntValue.gen((int) (neg ? -x : x));
      }
      }
    }
    String str() {
      i++;
      final ByteArrayOutputStream o = new ByteArrayOutputStream();
      while (b[i] != '"') {
        if (b[i] == '\\') {
          i++;
          switch (b[i]) {
          case 'n': o.write('\n'); break;
          case 't': o.write('\t'); break;
          case 'r': o.write('\r'); break;
          case 'u': o.write('?'); i += 4; break;
          default: o.write(b[i]);
          }
          i++;
        } else o.write(b[i++]);
      }
      i++;
      return new String(o.toByteArray(), StandardCharsets.UTF_8);
    }
  }
}
