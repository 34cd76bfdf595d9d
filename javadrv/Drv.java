import java.io.BufferedReader;
import java.io.InputStreamReader;
import java.io.PrintStream;
import java.nio.charset.StandardCharsets;

import qiniu.uip.db.IPFormatException;
import qiniu.uip.db.IpInfo;
import qiniu.uip.db.Query;
import qiniu.uip.db.VersionInfo;

/** Drives the Java library line by line; every request is answered by one line starting with '@'. */
public final class Drv {
    private static String hex(String s) {
        if (s == null) {
            return "";
        }
        StringBuilder b = new StringBuilder();
        for (byte x : s.getBytes(StandardCharsets.UTF_8)) {
            b.append(String.format("%02x", x & 0xff));
        }
        return b.toString();
    }

    private static byte[] unhex(String s) {
        byte[] r = new byte[s.length() / 2];
        for (int i = 0; i < r.length; i++) {
            r[i] = (byte) (Character.digit(s.charAt(2 * i), 16) << 4 | Character.digit(s.charAt(2 * i + 1), 16));
        }
        return r;
    }

    private static String join(String[] l) {
        StringBuilder b = new StringBuilder("[");
        if (l != null) {
            for (int i = 0; i < l.length; i++) {
                b.append(i > 0 ? "," : "").append(hex(l[i]));
            }
        }
        return b.append("]").toString();
    }

    private static String answer(IpInfo i, boolean edit) {
        if (i == null) {
            return "N";
        }
        String r = "I " + hex(i.country) + "," + hex(i.province) + "," + hex(i.city) + "," + hex(i.district) + ","
                + hex(i.isp) + "," + hex(i.asn) + "," + hex(i.continent) + "," + hex(i.line);
        if (edit) {
            i.country = i.province = i.city = i.district = i.isp = i.asn = i.continent = i.line = "edited";
        }
        return r;
    }

    private static String safe(Query db, byte[] ip, boolean edit) {
        try {
            return answer(db.query(ip), edit);
        } catch (IPFormatException | java.io.IOException e) {
            return "E";
        } catch (Throwable e) {
            return "P " + hex(e.toString());
        }
    }

    /**
     * threads rounds bytes-of-a-second-database addresses...: every thread asks all addresses in an order of its own, some
     * of them while opening another database, some editing what they get. Returns all distinct answers per address.
     */
    private static String threads(Query db, String[] f) throws Exception {
        int n = Integer.parseInt(f[0]);
        int rounds = Integer.parseInt(f[1]);
        byte[] other = unhex(f[2]);
        int k = f.length - 3;
        byte[][] addr = new byte[k][];
        java.util.List<java.util.Set<String>> seen = new java.util.ArrayList<>();
        for (int i = 0; i < k; i++) {
            addr[i] = unhex(f[i + 3]);
            seen.add(java.util.Collections.synchronizedSet(new java.util.TreeSet<>()));
        }
        java.util.concurrent.CountDownLatch go = new java.util.concurrent.CountDownLatch(1);
        java.util.concurrent.atomic.AtomicInteger overlaps = new java.util.concurrent.atomic.AtomicInteger();
        java.util.concurrent.atomic.AtomicInteger busy = new java.util.concurrent.atomic.AtomicInteger();
        String[] failed = new String[1];
        Thread[] ts = new Thread[n];
        for (int t = 0; t < n; t++) {
            final int me = t;
            ts[t] = new Thread(() -> {
                try {
                    go.await();
                    java.util.Random rnd = new java.util.Random(me);
                    for (int r = 0; r < rounds; r++) {
                        if (busy.incrementAndGet() > 1) {
                            overlaps.incrementAndGet();
                        }
                        int from = rnd.nextInt(k);
                        for (int i = 0; i < k; i++) {
                            int j = (from + i * (me % 2 == 0 ? 1 : k - 1)) % k;
                            seen.get(j).add(safe(db, addr[j], me % 3 == 0));
                        }
                        if (me % 4 == 1) {
                            Query.create(other, ".ipdb");
                            db.version();
                        }
                        busy.decrementAndGet();
                    }
                } catch (Throwable e) {
                    failed[0] = e.toString();
                }
            });
            ts[t].start();
        }
        go.countDown();
        for (Thread t : ts) {
            t.join();
        }
        StringBuilder b = new StringBuilder().append(overlaps.get());
        for (int i = 0; i < k; i++) {
            b.append(";");
            String sep = "";
            for (String s : seen.get(i)) {
                b.append(sep).append(s);
                sep = "|";
            }
        }
        if (failed[0] != null) {
            throw new RuntimeException("a thread failed: " + failed[0]);
        }
        return b.toString();
    }

    public static void main(String[] args) throws Exception {
        PrintStream out = new PrintStream(System.out, false, "UTF-8");
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
        Query db = null;
        String line;
        while ((line = in.readLine()) != null) {
            String op = line.substring(0, 1);
            String arg = line.length() > 2 ? line.substring(2) : "";
            String r;
            try {
                switch (op) {
                    case "O":
                        db = null;
                        db = Query.create(unhex(arg), ".ipdb");
                        r = "K";
                        break;
                    case "F":
                        db = null;
                        db = Query.create(new String(unhex(arg), StandardCharsets.UTF_8));
                        r = "K";
                        break;
                    case "V": {
                        VersionInfo v = db.version();
                        r = "V " + v.ipType + " " + v.count + " " + v.build + " [" + hex(v.version) + "] " + join(v.languages) + " " + join(v.extraInfo)
                                + " " + v.hasIpV4() + " " + v.hasIpV6();
                        // version information belongs to the caller
                        v.version = "edited";
                        for (String[] l : new String[][] {v.languages, v.extraInfo}) {
                            if (l != null) {
                                java.util.Arrays.fill(l, "edited");
                            }
                        }
                        break;
                    }
                    case "Q":
                    case "q":
                        r = answer(db.query(unhex(arg)), op.equals("q"));
                        break;
                    case "S":
                    case "s":
                        r = answer(db.query(new String(unhex(arg), StandardCharsets.UTF_8)), op.equals("s"));
                        break;
                    case "L": {
                        // L <n> <seed> <4|16>: n queries of pseudo-random addresses
                        String[] f = arg.split(" ");
                        java.util.Random rnd = new java.util.Random(Long.parseLong(f[1]));
                        int ok = 0;
                        for (int i = Integer.parseInt(f[0]); i > 0; i--) {
                            byte[] ip = new byte[Integer.parseInt(f[2])];
                            rnd.nextBytes(ip);
                            try {
                                db.query(ip);
                                ok++;
                            } catch (IPFormatException | java.io.IOException e) {
                                // not found
                            }
                        }
                        r = "K " + ok;
                        break;
                    }
                    case "M": {
                        // memory in use once garbage is gone
                        long used = Long.MAX_VALUE;
                        for (int i = 0; i < 3; i++) {
                            System.gc();
                            used = Math.min(used, Runtime.getRuntime().totalMemory() - Runtime.getRuntime().freeMemory());
                        }
                        r = "K " + used;
                        break;
                    }
                    case "T":
                        r = "K " + threads(db, arg.split(" "));
                        break;
                    default:
                        r = "X unknown request";
                }
            } catch (IPFormatException | java.io.IOException e) {
                r = "E " + hex(e.toString());
            } catch (Throwable e) {
                StringBuilder b = new StringBuilder(e.toString());
                StackTraceElement[] st = e.getStackTrace();
                for (int i = 0; i < st.length && i < 6; i++) {
                    b.append(" | ").append(st[i]);
                }
                r = "P " + hex(b.toString());
            }
            out.println("@" + r);
            out.flush();
        }
    }
}
