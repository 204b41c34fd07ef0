package vf;

import java.io.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Java side of module TraceIO: reads recorded executions and writes verdicts. */
public final class TraceIOImpl {
    private static PrintWriter out;

    private static String path(final Value v) {
        final String s = ((StringValue) v).val.toString();
        return s.startsWith("$") ? System.getProperty("vf." + s.substring(1)) : s;
    }
    /** One trace (a JSON array of events) per line. Numbers written with '.', 'e' or as NaN/Infinity become R64 values,
        integers beyond 32 bits become Q values, null becomes the string "None". */
    @TLAPlusOperator(identifier = "LoadTraces", module = "TraceIO", warn = false)
    public static Value load(final Value file) throws IOException {
        final ArrayList<Value> ts = new ArrayList<>();
        try (BufferedReader r = Files.newBufferedReader(Paths.get(path(file)), StandardCharsets.UTF_8)) {
            String line;
            while ((line = r.readLine()) != null) if (!line.isEmpty()) ts.add(new P(line).top());
        }
        return new TupleValue(ts.toArray(new Value[0]));
    }
    @TLAPlusOperator(identifier = "Report", module = "TraceIO", warn = false)
    public static Value report(final Value t, final Value i, final Value fails) throws IOException {
        synchronized (TraceIOImpl.class) {
            if (out == null) out = new PrintWriter(new OutputStreamWriter(new FileOutputStream(System.getProperty("vf.REPORT")), StandardCharsets.UTF_8));
            out.println(t + "\t" + i + "\t" + fails.toString().replace('\n', ' '));
            out.flush();
        }
        return BoolValue.ValTrue;
    }
    /** Appends one line to the plan file (model stage). */
    @TLAPlusOperator(identifier = "EmitPlan", module = "TraceIO", warn = false)
    public static Value emit(final Value v) throws IOException {
        final StringBuilder sb = new StringBuilder();
        json(v, sb);
        synchronized (TraceIOImpl.class) {
            if (out == null) out = new PrintWriter(new OutputStreamWriter(new FileOutputStream(System.getProperty("vf.PLAN")), StandardCharsets.UTF_8));
            out.println(sb);
            out.flush();
        }
        return BoolValue.ValTrue;
    }
    private static void str(final String s, final StringBuilder sb) {
        sb.append('"');
        for (int i = 0; i < s.length(); i++) { final char c = s.charAt(i); if (c == '"' || c == '\\') sb.append('\\'); sb.append(c); }
        sb.append('"');
    }
    private static void json(final Value v0, final StringBuilder sb) {
        Value v = v0;
        if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) { final Value t = v.toTuple(); v = t != null ? t : v.toRcd() != null ? v.toRcd() : v; }
        if (v instanceof SetEnumValue) { v.normalize(); final Value[] es = ((SetEnumValue) v).elems.toArray(); sb.append('['); for (int i = 0; i < es.length; i++) { if (i > 0) sb.append(','); json(es[i], sb); } sb.append(']'); }
        else if (v instanceof TupleValue) { sb.append('['); final Value[] es = ((TupleValue) v).elems; for (int i = 0; i < es.length; i++) { if (i > 0) sb.append(','); json(es[i], sb); } sb.append(']'); }
        else if (v instanceof RecordValue) { final RecordValue r = (RecordValue) v; sb.append('{'); for (int i = 0; i < r.names.length; i++) { if (i > 0) sb.append(','); str(r.names[i].toString(), sb); sb.append(':'); json(r.values[i], sb); } sb.append('}'); }
        else if (v instanceof StringValue) str(((StringValue) v).val.toString(), sb);
        else if (v instanceof BoolValue) sb.append(((BoolValue) v).val);
        else if (v.toTuple() != null) json(v.toTuple(), sb);
        else sb.append(v.toString());
    }

    private static final class P {
        final String s; int i = 0;
        P(final String s) { this.s = s; }
        Value top() { final Value v = val(); ws(); if (i != s.length()) throw new RuntimeException("trailing JSON at " + i); return v; }
        void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
        Value val() {
            ws();
            final char c = s.charAt(i);
            if (c == '{') {
                i++;
                final ArrayList<UniqueString> ns = new ArrayList<>(); final ArrayList<Value> vs = new ArrayList<>();
                ws();
                if (s.charAt(i) == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], true); }
                while (true) {
                    ws(); ns.add(UniqueString.uniqueStringOf(strg())); ws(); i++; vs.add(val()); ws();
                    if (s.charAt(i++) == '}') break;
                }
                final RecordValue r = new RecordValue(ns.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
                r.normalize();
                return r;
            }
            if (c == '[') {
                i++;
                final ArrayList<Value> vs = new ArrayList<>();
                ws();
                if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
                while (true) { vs.add(val()); ws(); if (s.charAt(i++) == ']') break; }
                return new TupleValue(vs.toArray(new Value[0]));
            }
            if (c == '"') return new StringValue(strg());
            final int j = i;
            while (i < s.length() && ",]} ".indexOf(s.charAt(i)) < 0) i++;
            final String t = s.substring(j, i);
            switch (t) {
                case "true": return BoolValue.ValTrue;
                case "false": return BoolValue.ValFalse;
                case "null": return new StringValue("None");
                case "NaN": return new DVal(Double.NaN);
                case "Infinity": return new DVal(Double.POSITIVE_INFINITY);
                case "-Infinity": return new DVal(Double.NEGATIVE_INFINITY);
            }
            if (t.indexOf('.') >= 0 || t.indexOf('e') >= 0 || t.indexOf('E') >= 0) return new DVal(Double.parseDouble(t));
            final BigInteger n = new BigInteger(t);
            if (n.bitLength() < 32) return IntValue.gen(n.intValue());
            return new QVal(n, BigInteger.ONE);
        }
        String strg() {
            i++;
            final StringBuilder sb = new StringBuilder();
            while (true) {
                final char c = s.charAt(i++);
                if (c == '"') break;
                if (c == '\\') {
                    final char e = s.charAt(i++);
                    switch (e) {
                        case 'n': sb.append('\n'); break;
                        case 't': sb.append('\t'); break;
                        case 'r': sb.append('\r'); break;
                        case 'b': case 'f': sb.append(' '); break;
                        case 'u': sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
                        default: sb.append(e);
                    }
                } else sb.append(c);
            }
            return sb.toString();
        }
    }
}
