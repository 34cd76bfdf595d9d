package com.google.gson;

import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Stand-in for the one Gson call the library makes; bad input throws the unchecked exceptions Gson throws. */
public class Gson {
    private String s;
    private int p;

    public static class JsonSyntaxException extends RuntimeException {
        public JsonSyntaxException(String m) {
            super(m);
        }
    }

    public <T> T fromJson(String json, Class<T> type) {
        Gson g = new Gson();
        g.s = json;
        g.skip();
        if (g.p >= json.length()) {
            return null;
        }
        Object v = g.value(0);
        g.skip();
        if (g.p < json.length()) {
            throw new JsonSyntaxException("trailing data");
        }
        if (v == null) {
            return null;
        }
        if (!(v instanceof Map)) {
            throw new JsonSyntaxException("expected an object");
        }
        try {
            T o = type.getDeclaredConstructor().newInstance();
            for (Map.Entry<?, ?> e : ((Map<?, ?>) v).entrySet()) {
                for (Field f : type.getDeclaredFields()) {
                    if (f.getName().equals(e.getKey()) && !Modifier.isStatic(f.getModifiers())) {
                        set(o, f, e.getValue());
                    }
                }
            }
            return o;
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
    }

    private static void set(Object o, Field f, Object v) throws ReflectiveOperationException {
        f.setAccessible(true);
        Class<?> t = f.getType();
        if (v == null) {
            if (!t.isPrimitive()) {
                f.set(o, null);
            }
        } else if (t == int.class || t == Integer.class) {
            f.set(o, integer(v, Integer.MIN_VALUE, Integer.MAX_VALUE).intValue());
        } else if (t == long.class || t == Long.class) {
            f.set(o, integer(v, Long.MIN_VALUE, Long.MAX_VALUE).longValue());
        } else if (t == String.class) {
            f.set(o, text(v));
        } else if (t == String[].class || t == List.class || t == ArrayList.class) {
            if (!(v instanceof List)) {
                throw new JsonSyntaxException("expected an array");
            }
            List<String> l = new ArrayList<>();
            for (Object x : (List<?>) v) {
                l.add(x == null ? null : text(x));
            }
            f.set(o, t == String[].class ? (Object) l.toArray(new String[0]) : l);
        } else if (Map.class.isAssignableFrom(t)) {
            if (!(v instanceof Map)) {
                throw new JsonSyntaxException("expected an object");
            }
            Map<String, Integer> m = new LinkedHashMap<>();
            for (Map.Entry<?, ?> e : ((Map<?, ?>) v).entrySet()) {
                m.put((String) e.getKey(), e.getValue() == null ? null : integer(e.getValue(), Integer.MIN_VALUE, Integer.MAX_VALUE).intValue());
            }
            f.set(o, m);
        } else {
            throw new IllegalStateException("stand-in does not know " + t);
        }
    }

    private static Number integer(Object v, long lo, long hi) {
        try {
            if (v instanceof Num || v instanceof String) {
                String s = v.toString();
                double d = Double.parseDouble(s);
                long n;
                try {
                    n = Long.parseLong(s);
                } catch (NumberFormatException e) {
                    n = (long) d;
                    if (n != d) {
                        throw e;
                    }
                }
                if (n >= lo && n <= hi) {
                    return n;
                }
            }
        } catch (NumberFormatException e) {
            throw new JsonSyntaxException(e.toString());
        }
        throw new JsonSyntaxException("expected an integer, got " + v);
    }

    private static String text(Object v) {
        if (v instanceof String || v instanceof Num || v instanceof Boolean) {
            return v.toString();
        }
        throw new JsonSyntaxException("expected a string");
    }

    private static final class Num {
        final String s;

        Num(String s) {
            this.s = s;
        }

        public String toString() {
            return s;
        }
    }

    private void skip() {
        while (p < s.length() && " \t\r\n".indexOf(s.charAt(p)) >= 0) {
            p++;
        }
    }

    private char peek() {
        if (p >= s.length()) {
            throw new JsonSyntaxException("unexpected end");
        }
        return s.charAt(p);
    }

    private Object value(int depth) {
        if (depth > 500) {
            throw new JsonSyntaxException("too deep");
        }
        skip();
        char c = peek();
        if (c == '{') {
            p++;
            Map<String, Object> m = new LinkedHashMap<>();
            skip();
            if (peek() == '}') {
                p++;
                return m;
            }
            while (true) {
                skip();
                String k = string();
                skip();
                if (peek() != ':') {
                    throw new JsonSyntaxException("expected ':'");
                }
                p++;
                m.put(k, value(depth + 1));
                skip();
                char d = peek();
                p++;
                if (d == '}') {
                    return m;
                }
                if (d != ',') {
                    throw new JsonSyntaxException("expected ','");
                }
            }
        }
        if (c == '[') {
            p++;
            List<Object> l = new ArrayList<>();
            skip();
            if (peek() == ']') {
                p++;
                return l;
            }
            while (true) {
                l.add(value(depth + 1));
                skip();
                char d = peek();
                p++;
                if (d == ']') {
                    return l;
                }
                if (d != ',') {
                    throw new JsonSyntaxException("expected ','");
                }
            }
        }
        if (c == '"') {
            return string();
        }
        int q = p;
        while (p < s.length() && (Character.isLetterOrDigit(s.charAt(p)) || "+-.".indexOf(s.charAt(p)) >= 0)) {
            p++;
        }
        String w = s.substring(q, p);
        switch (w) {
            case "null":
                return null;
            case "true":
                return true;
            case "false":
                return false;
            default:
                if (!w.matches("-?[0-9]+(\\.[0-9]+)?([eE][-+]?[0-9]+)?")) {
                    throw new JsonSyntaxException("bad token");
                }
                return new Num(w);
        }
    }

    private String string() {
        if (peek() != '"') {
            throw new JsonSyntaxException("expected a string");
        }
        p++;
        StringBuilder b = new StringBuilder();
        while (true) {
            char c = peek();
            p++;
            if (c == '"') {
                return b.toString();
            }
            if (c != '\\') {
                b.append(c);
                continue;
            }
            c = peek();
            p++;
            switch (c) {
                case 'n':
                    b.append('\n');
                    break;
                case 't':
                    b.append('\t');
                    break;
                case 'r':
                    b.append('\r');
                    break;
                case 'b':
                    b.append('\b');
                    break;
                case 'f':
                    b.append('\f');
                    break;
                case 'u':
                    if (p + 4 > s.length()) {
                        throw new JsonSyntaxException("bad escape");
                    }
                    try {
                        b.append((char) Integer.parseInt(s.substring(p, p + 4), 16));
                    } catch (NumberFormatException e) {
                        throw new JsonSyntaxException("bad escape");
                    }
                    p += 4;
                    break;
                case '"':
                case '\\':
                case '/':
                    b.append(c);
                    break;
                default:
                    throw new JsonSyntaxException("bad escape");
            }
        }
    }
}
