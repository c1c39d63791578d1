//! Explicit families of longer texts: lengths, widths and depths around every limit or buffer
//! size visible in the interface or the specification.

fn around(xs: &[usize], d: usize) -> Vec<usize> {
    let mut v: Vec<usize> = xs.iter().flat_map(|&x| x.saturating_sub(d)..=x + d).collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// Implicit keys around the limit of 1024 characters.
pub fn keys() -> Vec<String> {
    let mut out = Vec::new();
    let forms: &[(&str, &str)] = &[
        ("", ""),
        ("'", "'"),
        ("\"", "\""),
        ("[", "]"),
        ("{", "}"),
        ("&a ", ""),
        ("!t ", ""),
        ("&", " b"),
        ("\"\\x41", "\""),
        ("a ", " b"),
    ];
    let ctxs: &[(&str, &str)] = &[
        ("", ": v\n"),
        ("", " : v\n"),
        ("", "   : v\n"),
        ("k:\n  ", ": v\n"),
        ("- ", ": v\n"),
        ("? ", ": v\n"),
        ("x: y\n", ": v\n"),
        ("{", ": v}\n"),
        ("[", ": v]\n"),
        ("- [q, ", " : v]\n"),
    ];
    for (a, b) in ctxs {
        for (p, s) in forms {
            for (unit, w) in [("a", 1), ("é", 2), ("\u{1F600}", 4)] {
                let mut lens = around(&[1024], 8);
                lens.extend(around(&[1024 / w], 4));
                lens.push(700);
                for n in lens {
                    out.push(format!("{a}{p}{}{s}{b}", unit.repeat(n)));
                }
            }
        }
    }
    out
}

/// Scalars whose length crosses internal buffer sizes.
pub fn lengths() -> Vec<String> {
    let mut out = Vec::new();
    for n in around(&[8, 16, 32, 64, 127, 128, 254, 256, 512], 3) {
        let a = "a".repeat(n);
        let e = "é".repeat(n / 2) + if n % 2 == 1 { "a" } else { "" };
        for x in [&a, &e] {
            for t in ["", "\n", ": b", " : b", " #c\n", "\n b", "\r\nb", "\t", ", b"] {
                out.push(format!("{x}{t}"));
                out.push(format!("- {x}{t}"));
                out.push(format!("[{x}{t}]"));
                out.push(format!("'{x}{t}'"));
                out.push(format!("\"{x}{t}\""));
                out.push(format!("\"{x}\\n{t}\""));
                out.push(format!("|\n {x}{t}"));
                out.push(format!("- >\n  {x}{t}"));
                out.push(format!("a: |\n  {x}\n  {x}{t}"));
                out.push(format!("# {x}\n{t}"));
                out.push(format!("a #{x}\n{t}"));
                out.push(format!("&{x} {t}"));
                out.push(format!("!{} {t}", "t".repeat(n)));
            }
            out.push(format!("- &{x} b\n- *{x}\n"));
            out.push(format!("%TAG !a! {}\n--- !a!b c\n", "t".repeat(n)));
        }
        let sp = " ".repeat(n);
        let nl = "\n".repeat(n);
        for (p, q) in [("a:", "b"), ("-", "b"), ("a", ": b"), ("[a", ",b]"), ("'a", "b'"), ("\"a", "b\""), ("a", "b"), ("", "a: b"), ("|\n", "b\n"), ("|\n a\n", " b\n"), ("- >\n  a\n", "  b\n"), ("---", "a")] {
            out.push(format!("{p}{sp}{q}"));
            out.push(format!("{p}{nl}{q}"));
            out.push(format!("{p}{nl} {q}"));
            out.push(format!("{p}\n{sp}{q}"));
        }
    }
    out
}

/// Indentation widths.
pub fn widths() -> Vec<String> {
    let mut out = Vec::new();
    for n in (1..=12).chain(around(&[16, 32, 64, 100, 127, 128, 256], 2)) {
        let i = " ".repeat(n);
        let j = " ".repeat(2 * n);
        let k = " ".repeat(n + 1);
        let l = " ".repeat(n - 1);
        for s in [
            format!("a:\n{i}b: c\n{i}d: e\nf: g\n"),
            format!("a:\n{i}b:\n{j}c: d\n{j}e: f\n{i}g: h\n"),
            format!("a:\n{i}- b\n{i}- c\nd: e\n"),
            format!("-{i}a: b\n{k}c: d\n- e\n"),
            format!("-{i}- a\n{k}- b\n- c\n"),
            format!("-{i}a: b\n{i}c: d\n"),
            format!("?{i}a: b\n{k}c: d\n:{i}e: f\n{k}g: h\n"),
            format!("a:\n{i}b: c\n{k}d: e\n"),
            format!("a:\n{i}b: c\n{l}d: e\n"),
            format!("a: |\n{i}b\n{i}c\nd: e\n"),
            format!("a: |\n{i}b\n{k}c\n{i}d\n"),
            format!("a: >\n{i}b\n\n{i}c\n{k}d\n{i}e\n"),
            format!("a: |\n{i}b\n{l}c\n"),
            format!("a: |\n{j}\n{i}b\n"),
            format!("a: |\n{i}\n{j}b\n"),
            format!("|\n{i}a\n{i}b\n"),
            format!("|\n{i}"),
            format!("|\n{i}\n"),
            format!("a: |\n{i}"),
            format!("- |\n{i}"),
            format!("|+\n{i}\n"),
            format!("a: |\n\n{i}\n\nb: c\n"),
            format!("a: b\n{i}c\n{j}d\n"),
            format!("a: 'b\n{i}c\n{j}d'\n"),
            format!("a: \"b\n{i}c\n{j}d\"\n"),
            format!("a: [b,\n{i}c,\n{j}d]\ne: f\n"),
            format!("{i}a: b\n{i}c: d\n"),
            format!("{i}- a\n{i}- b\n"),
            format!("{i}a\n{i}b\n"),
            format!("a:\n{i}- b:\n{j}  c\n{i}- d\n"),
            format!("{i}# c\na: b\n{i}# c\n"),
            format!("a: |{}\n{i}b\n", n.min(9)),
            format!("- |{}\n {i}b\n{i} c\n", n.min(9)),
            format!("a:\n  b: >{}\n  {i}b\n  {i} c\n  {i}d\n", n.min(9)),
        ] {
            out.push(s);
        }
    }
    out
}

/// Nesting depths.
pub fn depths(max: usize) -> Vec<String> {
    let mut out = Vec::new();
    for n in (1..=max).filter(|n| *n <= 12 || n % 7 == 0 || n.is_power_of_two() || (n + 1).is_power_of_two()) {
        let mut m = String::new();
        let mut s = String::new();
        for i in 0..n {
            m.push_str(&format!("{}a:\n", " ".repeat(i)));
            s.push_str(&format!("{}-\n", " ".repeat(i)));
        }
        let i = " ".repeat(n);
        for t in [
            format!("{}a", "- ".repeat(n)),
            format!("{}a\n- b\n", "- ".repeat(n)),
            format!("{}a", "? ".repeat(n)),
            format!("{}a: b", "- ".repeat(n)),
            format!("{}{}", "[".repeat(n), "]".repeat(n)),
            format!("{}a{}", "[".repeat(n), "]".repeat(n)),
            format!("{}{}", "[".repeat(n), "]".repeat(n - 1)),
            format!("{}{}", "[".repeat(n), "]".repeat(n + 1)),
            format!("{}a{}", "{a: ".repeat(n), "}".repeat(n)),
            format!("{}a{}", "{? ".repeat(n), "}".repeat(n)),
            format!("{}a{}: b", "[".repeat(n), "]".repeat(n)),
            format!("{}a{}", "[{a: ".repeat(n), "}]".repeat(n)),
            format!("{}a{}", "[b, a: ".repeat(n), "]".repeat(n)),
            format!("{m}{i}b"),
            format!("{m}{i}b: c\nd: e"),
            format!("{m}{i}- c\nd: e"),
            format!("{s}{i}b"),
            format!("{s}{i}b: c\n- d"),
            format!("{m}{i}|\n{i} x\n{i}  y\nd: e"),
            format!("{m}{i}'x\n{i}  y'\nd: e"),
            format!("{}a: &x b\n{i}{i}c: *x\n", "- ".repeat(n)),
            format!("{m}{i}[b,\n{i} c]\nd: e"),
        ] {
            out.push(t);
        }
    }
    out
}

/// Repetition counts: entries, documents, anchors, directives.
pub fn counts() -> Vec<String> {
    let mut n: Vec<usize> = (1..=20).collect();
    n.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
    let mut out = counts_of(&n);
    out.extend(more_counts_of(&n));
    out
}
fn more_counts_of(counts: &[usize]) -> Vec<String> {
    let mut out = Vec::new();
    for n in counts.iter().copied() {
        let rep = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        let nl = "\n".repeat(n);
        // blank lines in and behind block scalars
        for h in ["|", ">", "|+", ">+", "|-", ">-", "|2", ">2+"] {
            out.push(format!("{h}\n  a\n{nl}  b\n"));
            out.push(format!("{h}\n  a\n{nl}"));
            out.push(format!("k: {h}\n{nl}  a\n{nl}j: b\n"));
            out.push(format!("- {h}\n{nl}   a\n{nl}    b\n{nl}   c\n{nl}...\n"));
        }
        // blank lines and escapes in the other scalars
        for (p, q) in [("'", "'"), ("\"", "\""), ("[", "]"), ("k: ", "\nj: i\n"), ("- '", "'\n")] {
            out.push(format!("{p}a\n{nl} b{q}"));
            out.push(format!("{p}a{} b{q}", rep(&|i| format!(" c{i}\n\n"))));
        }
        for e in ["\\x41", "\\u00e9", "\\U0001F600", "\\\\", "\\\"", "\\\n  ", "\\ \n", "\\n\n "] {
            out.push(format!("\"{}\"", e.repeat(n)));
        }
        out.push(format!("k: \"a\\\n{nl} b\"\n"));
        // collections in collections
        for u in ["- - a\n", "- a: b\n  c: d\n", "-\n  - a\n", "- [a, {b: c}]\n", "- |\n  a\n", "- 'a\n  b'\n", "- ! a\n", "- !!str\n", "- ? a\n  : b\n", "- # c\n  a\n", "- a\n\n# c\n"] {
            out.push(u.repeat(n));
            out.push(format!("k:\n{}", u.repeat(n).lines().map(|l| format!("  {l}\n")).collect::<String>()));
        }
        out.push(rep(&|i| format!("k{i}:\n  a: b\n")));
        out.push(rep(&|i| format!("k{i}:\n- a\n")));
        out.push(rep(&|i| format!("k{i}:\n-\n")));
        out.push(rep(&|i| format!("k{i}: |\n  a\n")));
        out.push(rep(&|i| format!("k{i}:\n    - a: b\n      c:\n        - d\n")));
        out.push(rep(&|i| format!("? - a{i}\n: - b\n")));
        out.push(rep(&|i| format!("'k{i}' : [a,\n  b]\n")));
        out.push(rep(&|_| ": a\n? b\n".to_string()));
        out.push(format!("&a k: b\n{}", "*a : *a\n".repeat(n)));
        out.push(format!("[&a k, {}]", "*a : *a, ".repeat(n)));
        out.push(format!("[{}]", "a # c\n, ".repeat(n)));
        out.push(format!("{{{}}}", rep(&|i| format!("a{i}: [b, {{c: d}}],\n "))));
        out.push(format!("[{}]", "? a : b, ".repeat(n)));
        out.push(format!("{{{}}}", "? , ".repeat(n)));
        out.push(format!("[{}]", "[], {}, ".repeat(n)));
        out.push(format!("[{}]", "!a &b, ".repeat(n)));
        // documents and directives
        out.push(format!("a\n{}b\n", "...\n".repeat(n)));
        out.push(format!("{}--- a\n", "%FOO bar\n".repeat(n)));
        out.push(format!("{}%YAML 1.2\n%TAG !e! t\n--- !e!a b\n", "%FOO bar # c\n".repeat(n)));
        out.push(format!("{}%TAG !a0! x\n---\n", rep(&|i| format!("%TAG !a{i}! p{i}\n"))));
        out.push(rep(&|i| format!("%TAG !e! t{i}\n--- !e!x a\n...\n")));
        out.push(format!("{}--- !e!x a\n", rep(&|i| format!("%TAG !e! t{i}\n---\n...\n"))));
        out.push(format!("{}--- !e!x a\n", rep(&|i| format!("%TAG !e{i}! t{i}\n%TAG !f! t\n--- !f!a b\n...\n"))));
        out.push(rep(&|_| "--- |\n a\n".to_string()));
        out.push(rep(&|_| "--- &a x\n--- *a\n".to_string()));
        out.push(rep(&|_| "%YAML 1.2\n---\n- &a x\n- *a\n...\n# c\n".to_string()));
        out.push(format!("{}- *a\n", "- &a x\n- &b [*a]\n".repeat(n)));
        out.push(format!("!a{} b", "%41".repeat(n)));
        out.push(format!("!<a{}> b", "%C3%A9".repeat(n)));
        out.push(format!("%TAG !e! a{}\n--- !e!x b", "%41".repeat(n)));
        // comments
        out.push(format!("a: # c\n{}  b\n", rep(&|i| format!("{}# c{i}\n", " ".repeat(i % 7)))));
        out.push(format!("k:\n  - a\n{}  - b\n", rep(&|i| format!("{}# c{i}\n\n", " ".repeat(i % 5)))));
        out.push(format!("k: |\n   a\n{}j: b\n", rep(&|i| format!(" # c{i}\n"))));
    }
    out
}

/// Every block scalar header with contents of every indentation up to a little above what it says.
pub fn headers() -> Vec<String> {
    let mut out = Vec::new();
    for style in ["|", ">"] {
        for chomp in ["", "-", "+"] {
            for ind in 0..=9usize {
                let i = if ind > 0 { ind.to_string() } else { String::new() };
                let mut heads = vec![format!("{style}{i}{chomp}")];
                if ind > 0 && !chomp.is_empty() {
                    heads.push(format!("{style}{chomp}{i}"));
                }
                for h in heads {
                    for n in (0..=3).chain(ind.max(5) - 2..=ind + 3) {
                        let (a, b) = (" ".repeat(n), " ".repeat(n + 1));
                        for (p, q) in [("", ""), ("k: ", "j: i\n"), ("- ", "- z\n"), ("k:\n  j: ", "  i: h\n"), ("- - ", "- z\n"), ("   k: ", "   j: i\n"), ("--- ", "--- z\n")] {
                            out.push(format!("{p}{h}\n{a}x\n{b}y\n{a}z\n{q}"));
                            out.push(format!("{p}{h}\n{a}x\n\n{q}"));
                            out.push(format!("{p}{h}\n{b}x\n{a}y"));
                            out.push(format!("{p}{h}\n{b}\n{a}y\n{a}\n{q}"));
                            out.push(format!("{p}{h}\n{a}"));
                            out.push(format!("{p}{h}\n{a}\n{b}\n"));
                            out.push(format!("{p}{h}\n{a}x\n{b}"));
                            out.push(format!("{p}{h}\n{a}x\n\n{a}# c\n"));
                            out.push(format!("{p}{h} # c\n{a}# c\n{q}"));
                        }
                    }
                }
            }
        }
    }
    out
}
fn counts_of(counts: &[usize]) -> Vec<String> {
    let mut out = Vec::new();
    for n in counts.iter().copied() {
        let rep = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        out.push(rep(&|i| format!("- a{i}\n")));
        out.push(rep(&|i| format!("a{i}: b{i}\n")));
        out.push(rep(&|i| format!("? a{i}\n: b{i}\n")));
        out.push(rep(&|_| "? a\n".to_string()));
        out.push(format!("[{}]", rep(&|i| format!("a{i},"))));
        out.push(format!("{{{}}}", rep(&|i| format!("a{i}: b{i}, "))));
        out.push(format!("[{}]", rep(&|i| format!("a{i}: b{i}, "))));
        out.push(format!("{{{}}}", rep(&|i| format!("'a{i}':b{i},"))));
        out.push(rep(&|i| format!("--- a{i}\n")));
        out.push(rep(&|i| format!("a{i}\n...\n")));
        out.push(rep(&|i| format!("---\na: {i}\n...\n")));
        out.push(rep(&|_| "---\n".to_string()));
        out.push(rep(&|i| format!("- &a{i} b\n- *a{i}\n")));
        out.push(rep(&|i| format!("- &a b{i}\n- *a\n")));
        out.push(rep(&|i| format!("--- &a b{i}\n")));
        out.push(format!("{}---\n{}", rep(&|i| format!("%TAG !a{i}! p{i}\n")), rep(&|i| format!("- !a{i}!x\n"))));
        out.push(format!("|\n{}", rep(&|i| format!(" l{i}\n"))));
        out.push(format!(">\n{}", rep(&|i| format!(" l{i}\n"))));
        out.push(format!("- >\n{}- x", rep(&|i| format!("  l{i}\n\n"))));
        out.push(format!("a\n{}", rep(&|i| format!(" l{i}\n"))));
        out.push(format!("'{}'", rep(&|i| format!(" l{i}\n"))));
        out.push(format!("\"{}\"", rep(&|i| format!(" l{i}\\\n"))));
        out.push(rep(&|i| format!("# c{i}\n")));
        out.push(format!("a: b\n{}c: d\n", rep(&|i| format!("# c{i}\n"))));
        out.push(format!("a: b\n{}c: d\n", "\n".repeat(n)));
        out.push(format!("\"{}\"", "\\t".repeat(n)));
        out.push(format!("'{}'", "''".repeat(n)));
    }
    out
}

/// Long texts: counts, lengths and widths around powers of two up to 2^16.
pub fn large(all: bool) -> Vec<String> {
    let mut out = counts_of(if all { &[511, 513, 1000, 1024, 1025, 2048, 4097, 10_000, 32_769, 65_535, 65_536, 65_537] } else { &[1025, 65_537] });
    out.extend(more_counts_of(if all { &[513, 1024, 1025, 4097, 10_000, 65_537] } else { &[1025] }));
    for n in around(if all { &[1000, 1024, 2048, 4096, 8192, 16_384, 32_768, 65_536] } else { &[1024, 4096, 65_536] }, 1) {
        for x in ["a".repeat(n), "é".repeat(n / 2), "a ".repeat(n / 2 - 1) + "b", " ".repeat(n), "\n".repeat(n), " \n".repeat(n / 2)] {
            for (p, q) in [
                ("a", "b"),
                ("a", "b: c"),
                ("- a", "b\n- c"),
                ("[a", "b, c]"),
                ("'a", "b' # c\n"),
                ("\"a", "\\n\""),
                ("|\n a", "b\n c\n"),
                ("- >\n  a", "\n  b\n"),
                ("# ", "\na: b"),
                ("a #", "\n"),
                ("a:", " b\nc: d"),
                ("? a", " # c\n: d"),
                ("[", "]"),
                ("---", "\n...\nb"),
            ] {
                out.push(format!("{p}{x}{q}"));
            }
        }
        let (x, t) = ("a".repeat(n), "t".repeat(n));
        out.push(format!("- &{x} b\n- *{x}\n- *{x}b"));
        out.push(format!("- &{x} b\n- *{x}\n"));
        out.push(format!("!{t} a: !<{t}> b"));
        out.push(format!("%TAG !{t}! {t}\n--- !{t}!b c\n"));
        out.push(format!("%{t} {t}\n--- c\n"));
        let (i, j) = (" ".repeat(n), " ".repeat(n + 1));
        out.push(format!("a:\n{i}b:\n{j}c: d\n{i}e: f\ng: h\n"));
        out.push(format!("a:\n{i}- b\n{i}- - c\n{i}  - d\n- e\n"));
        out.push(format!("a:\n{i}- b\n{i}- - c\n{i}  - d\ng: e\n"));
        out.push(format!("- a: |\n{i}b\n{j}c\n{i}d\n- e\n"));
        out.push(format!("- a: |1\n{i}b\n{j}c\n{i}d\n- e\n"));
        out.push(format!("- >-\n{i}b\n{i}c\n{j}d\n{i}e\n\n- f\n"));
        out.push(format!("{i}- b\n{j}- c\n"));
    }
    out
}
