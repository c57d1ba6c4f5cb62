package drive;

import java.io.BufferedReader;
import java.io.InputStreamReader;
import java.io.OutputStreamWriter;
import java.io.Writer;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.nio.charset.StandardCharsets;

/** Runs scenarios of a driver class on request: one line per call, one line per answer. */
public class Srv {
    private static String text(String hex) {
        if (hex.equals("null"))
            return null;
        return new String(bytes(hex), StandardCharsets.UTF_16BE);
    }

    private static byte[] bytes(String hex) {
        byte[] r = new byte[hex.length() / 2];
        for (int i = 0; i < r.length; i++)
            r[i] = (byte) Integer.parseInt(hex.substring(2 * i, 2 * i + 2), 16);
        return r;
    }

    private static final char[] HEX = "0123456789abcdef".toCharArray();

    private static String hex(byte[] b) {
        StringBuilder sb = new StringBuilder();
        for (byte x : b)
            sb.append(HEX[(x >> 4) & 15]).append(HEX[x & 15]);
        return sb.toString();
    }

    private static Object arg(String s) {
        String v = s.substring(2);
        String[] parts = v.isEmpty() ? new String[0] : v.split(",");
        switch (s.charAt(0)) {
            case 'i':
                return Integer.parseInt(v);
            case 'j':
                return Long.parseLong(v);
            case 'd':
                return Double.parseDouble(v);
            case 'z':
                return v.equals("1");
            case 's':
                return text(v);
            case 'b':
                return bytes(v);
            case 'I': {
                int[] r = new int[parts.length];
                for (int i = 0; i < r.length; i++)
                    r[i] = Integer.parseInt(parts[i]);
                return r;
            }
            case 'J': {
                long[] r = new long[parts.length];
                for (int i = 0; i < r.length; i++)
                    r[i] = Long.parseLong(parts[i]);
                return r;
            }
            case 'D': {
                double[] r = new double[parts.length];
                for (int i = 0; i < r.length; i++)
                    r[i] = Double.parseDouble(parts[i]);
                return r;
            }
            case 'S': {
                String[] r = new String[parts.length];
                for (int i = 0; i < r.length; i++)
                    r[i] = text(parts[i].substring(1));
                return r;
            }
        }
        throw new IllegalArgumentException(s);
    }

    private static String result(Object o) {
        if (o == null)
            return "n:";
        if (o instanceof Integer)
            return "i:" + o;
        if (o instanceof Long)
            return "i:" + o;
        if (o instanceof Boolean)
            return (Boolean) o ? "i:1" : "i:0";
        if (o instanceof Double)
            return "d:" + o;
        if (o instanceof String)
            return "s:" + hex(((String) o).getBytes(StandardCharsets.UTF_16BE));
        if (o instanceof byte[])
            return "b:" + hex((byte[]) o);
        StringBuilder sb = new StringBuilder();
        if (o instanceof int[]) {
            for (int x : (int[]) o)
                sb.append(x).append(',');
            return "I:" + sb;
        }
        if (o instanceof long[]) {
            for (long x : (long[]) o)
                sb.append(x).append(',');
            return "I:" + sb;
        }
        if (o instanceof double[]) {
            for (double x : (double[]) o)
                sb.append(x).append(',');
            return "D:" + sb;
        }
        if (o instanceof String[]) {
            for (String x : (String[]) o)
                sb.append('_').append(x == null ? "null" : hex(x.getBytes(StandardCharsets.UTF_16BE))).append(',');
            return "S:" + sb;
        }
        throw new IllegalArgumentException(o.getClass().getName());
    }

    public static void main(String[] args) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.US_ASCII));
        Writer out = new OutputStreamWriter(System.out, StandardCharsets.US_ASCII);
        Class<?> drive = Class.forName(args[0]);
        String line;
        while ((line = in.readLine()) != null) {
            String[] parts = line.split(" ");
            String answer;
            try {
                Object[] a = new Object[parts.length - 1];
                for (int i = 0; i < a.length; i++)
                    a[i] = arg(parts[i + 1]);
                Method m = null;
                for (Method x : drive.getDeclaredMethods())
                    if (x.getName().equals(parts[0]))
                        m = x;
                m.setAccessible(true);
                answer = result(m.invoke(null, a));
            } catch (InvocationTargetException e) {
                Throwable t = e.getCause();
                answer = "x:" + t.getClass().getName();
            }
            out.write(answer);
            out.write('\n');
            out.flush();
        }
    }
}
