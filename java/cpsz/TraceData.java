package cpsz;

import java.io.*;
import java.nio.*;
import java.nio.channels.FileChannel;
import java.util.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * Recorded executions of the harness as TLA+ values.  The job file (-Dcpsz.jobs) holds what was asked, the result files
 * (-Dcpsz.results, separated by ':', one per run of the same job file) what was observed.  Nothing is interpreted here.
 */
public class TraceData {
  static final Map<Integer, String> OP = new HashMap<>();
  static {
    String[] n = { "1:sz3_abs", "2:online_abs", "3:relax", "4:online", "5:online_log", "6:offline", "7:offline_log", "8:bilinear",
        "10:off3", "11:log3", "12:abs3", "13:unst3", "20:sz2d", "21:sz2d_eb", "22:sz3d", "23:sz3d_eb", "24:pwr2d", "25:pwr2d_eb",
        "30:huffman", "31:bits", "32:lossless", "33:file", "34:verify", "35:runs", "36:flagruns" };
    for (String s : n) OP.put(Integer.parseInt(s.split(":")[0]), s.split(":")[1]);
  }

  static class Arr { long off; int n; long hash; }
  static class CallIn { int op, type, r1, r2, r3, bsize, flags, group; double eb; Arr[] in; long inHash, key; }
  static class JobIn { CallIn[] calls; }
  static class CallOut { long size, digest, aux; int inputOk; Arr[] out; long outHash; }
  static class JobOut { int status, stage, call; CallOut[] calls; String report; }

  static JobIn[] jobs;
  static JobOut[][] results;          // [run][job]
  static MappedByteBuffer[] jobBuf;
  static MappedByteBuffer[] resBuf;

  static MappedByteBuffer map(String f) throws IOException {
    try (RandomAccessFile r = new RandomAccessFile(f, "r")) {
      MappedByteBuffer b = r.getChannel().map(FileChannel.MapMode.READ_ONLY, 0, r.length());
      b.order(ByteOrder.LITTLE_ENDIAN);
      return b;
    }
  }

  static long mix(long h, long v) {
    h ^= v + 0x9E3779B97F4A7C15L + (h << 6) + (h >>> 2);
    h *= 0xFF51AFD7ED558CCDL;
    return h ^ (h >>> 32);
  }

  static Arr arr(ByteBuffer b) {
    Arr a = new Arr();
    a.n = (int) b.getLong();
    a.off = b.position();
    long h = a.n;
    for (int i = 0; i < a.n; i++) h = mix(h, b.getLong());
    a.hash = h;
    return a;
  }

  static synchronized void load() {
    if (jobs != null) return;
    try {
      MappedByteBuffer b = map(System.getProperty("cpsz.jobs"));
      jobBuf = new MappedByteBuffer[] { b };
      List<JobIn> js = new ArrayList<>();
      while (b.hasRemaining()) {
        if (b.getInt() != 0x4a4f4221) throw new IOException("bad job file");
        JobIn j = new JobIn();
        int n = b.getInt();
        b.getInt();
        j.calls = new CallIn[n];
        for (int i = 0; i < n; i++) {
          CallIn c = j.calls[i] = new CallIn();
          c.op = b.getInt(); c.type = b.getInt(); c.r1 = b.getInt(); c.r2 = b.getInt(); c.r3 = b.getInt();
          c.bsize = b.getInt(); c.flags = b.getInt(); c.group = b.getInt();
          c.eb = b.getDouble();
          c.in = new Arr[b.getInt()];
          long h = 7;
          for (int k = 0; k < c.in.length; k++) { c.in[k] = arr(b); h = mix(h, c.in[k].hash); }
          c.inHash = h;
          long q = mix(mix(mix(mix(mix(11, c.op), c.type), c.r1), c.r2), c.r3);
          c.key = mix(mix(mix(mix(q, c.bsize), c.flags & 3), Double.doubleToRawLongBits(c.eb)), c.inHash);
        }
        js.add(j);
      }
      String[] rf = System.getProperty("cpsz.results").split(":");
      results = new JobOut[rf.length][js.size()];
      resBuf = new MappedByteBuffer[rf.length];
      for (int r = 0; r < rf.length; r++) {
        MappedByteBuffer s = resBuf[r] = map(rf[r]);
        for (int j = 0; j < js.size(); j++) {
          if (s.getInt() != 0x4a4f4221) throw new IOException("bad result file");
          JobOut o = results[r][j] = new JobOut();
          o.status = s.getInt(); o.stage = s.getInt(); o.call = s.getInt();
          s.getInt();
          byte[] rep = new byte[s.getInt()];
          s.get(rep);
          o.report = new String(rep);
          long len = s.getLong();
          long end = s.position() + len;
          List<CallOut> cs = new ArrayList<>();
          while (s.position() < end) {
            CallOut c = new CallOut();
            c.size = s.getLong(); c.digest = s.getLong(); c.aux = s.getLong(); c.inputOk = s.getInt();
            c.out = new Arr[s.getInt()];
            long h = 7;
            for (int k = 0; k < c.out.length; k++) { c.out[k] = arr(s); h = mix(h, c.out[k].hash); }
            c.outHash = h;
            cs.add(c);
          }
          o.calls = cs.toArray(new CallOut[0]);
        }
      }
      jobs = js.toArray(new JobIn[0]);
    } catch (IOException e) {
      throw new RuntimeException(e);
    }
  }

  static UniqueString us(String s) { return UniqueString.uniqueStringOf(s); }

  static Value id(long h) { return new TupleValue(new Value[] { IntValue.gen((int) (h >>> 33)), IntValue.gen((int) (h & 0x7fffffff)) }); }

  static Value str(String s) { return new StringValue(s); }

  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static Value rec(Object... kv) {
    int n = kv.length / 2;
    UniqueString[] names = new UniqueString[n];
    Value[] vals = new Value[n];
    for (int i = 0; i < n; i++) { names[i] = us((String) kv[2 * i]); vals[i] = (Value) kv[2 * i + 1]; }
    return new RecordValue(names, vals, false);
  }

  static final Map<String, Value> cache = new LinkedHashMap<String, Value>(64, 0.75f, true) {
    protected boolean removeEldestEntry(Map.Entry<String, Value> e) { return size() > 24; }
  };

  static Value numbers(ByteBuffer b, Arr a) {
    Value[] v = new Value[a.n];
    for (int i = 0; i < a.n; i++) v[i] = new ExactReal.Num(b.getDouble((int) a.off + 8 * i));
    return new TupleValue(v);
  }

  @TLAPlusOperator(identifier = "NJobs", module = "TraceData", warn = false)
  public static Value nJobs() { load(); return IntValue.gen(jobs.length); }

  @TLAPlusOperator(identifier = "NRuns", module = "TraceData", warn = false)
  public static Value nRuns() { load(); return IntValue.gen(results.length); }

  @TLAPlusOperator(identifier = "NCalls", module = "TraceData", warn = false)
  public static Value nCalls(final Value j) { load(); return IntValue.gen(jobs[ix(j)].calls.length); }

  @TLAPlusOperator(identifier = "Ending", module = "TraceData", warn = false)
  public static Value ending(final Value r, final Value j) {
    load();
    JobOut o = results[ix(r)][ix(j)];
    return rec("kind", str(o.status == 0 ? "returned" : o.status == 1 ? "crash" : "hang"), "call", IntValue.gen(o.call + 1),
        "stage", str(o.stage == 0 ? "before" : o.stage == 1 ? "compress" : o.stage == 3 ? "decompress" : "between"),
        "op", str(o.status == 0 ? "" : OP.get(jobs[ix(j)].calls[o.call].op)), "outcalls", IntValue.gen(o.calls.length));
  }

  static int ix(Value v) { return ((IntValue) v).val - 1; }

  @TLAPlusOperator(identifier = "Request", module = "TraceData", warn = false)
  public static Value request(final Value j, final Value c) {
    load();
    CallIn k = jobs[ix(j)].calls[ix(c)];
    String op = OP.get(k.op);
    return rec("op", str(op), "typ", str(k.type == 0 ? "float" : "double"), "r1", IntValue.gen(k.r1), "r2", IntValue.gen(k.r2),
        "r3", IntValue.gen(k.r3), "bsize", IntValue.gen(k.bsize), "bi", bool((k.flags & 1) != 0), "zstd", bool((k.flags & 4) != 0),
        "fresh", bool((k.flags & 32) != 0), "tail", bool((k.flags & 64) != 0), "eb", new ExactReal.Num(k.eb),
        "nin", IntValue.gen(k.in.length), "n", IntValue.gen(k.in.length == 0 ? 0 : k.in[0].n), "input", id(k.inHash), "key", id(k.key));
  }

  @TLAPlusOperator(identifier = "Reply", module = "TraceData", warn = false)
  public static Value reply(final Value r, final Value j, final Value c) {
    load();
    CallOut k = results[ix(r)][ix(j)].calls[ix(c)];
    return rec("size", IntValue.gen((int) Math.min(k.size, Integer.MAX_VALUE)), "digest", id(k.digest),
        "aux", IntValue.gen((int) Math.min(k.aux, Integer.MAX_VALUE)), "inputOk", bool(k.inputOk != 0), "nout", IntValue.gen(k.out.length),
        "output", id(k.outHash));
  }

  @TLAPlusOperator(identifier = "InArr", module = "TraceData", warn = false)
  public static Value inArr(final Value j, final Value c, final Value k) {
    load();
    String key = "i" + ix(j) + "," + ix(c) + "," + ix(k);
    Value v = cache.get(key);
    if (v == null) { v = numbers(jobBuf[0], jobs[ix(j)].calls[ix(c)].in[ix(k)]); cache.put(key, v); }
    return v;
  }

  @TLAPlusOperator(identifier = "OutArr", module = "TraceData", warn = false)
  public static Value outArr(final Value r, final Value j, final Value c, final Value k) {
    load();
    String key = "o" + ix(r) + "," + ix(j) + "," + ix(c) + "," + ix(k);
    Value v = cache.get(key);
    if (v == null) { v = numbers(resBuf[ix(r)], results[ix(r)][ix(j)].calls[ix(c)].out[ix(k)]); cache.put(key, v); }
    return v;
  }
}
