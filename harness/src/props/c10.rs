//! C10: reading untrusted text, in a process of its own: no panic, abort, hang or output; the same outcome each time.
use crate::fw::{clip, Case, Ctx};
use crate::untrusted::{self, KINDS};

fn judge(c: &mut Case, kind: char, how: &str, t: &[u8]) -> Option<bool> {
    let show = |n: usize| clip(&String::from_utf8_lossy(t), n);
    let v = untrusted::ask(c, kind, false, t)?;
    for n in &v[1..] {
        if let Some(p) = n.strip_prefix("panic ") {
            if p == "monitor" {
                panic!("the monitor failed for {}", show(500));
            }
            c.viol(format!("panic:{}:{}", kind, p.split(' ').next().unwrap()), format!("{} for {}", clip(p, 300), show(600)));
        } else if let Some(d) = n.strip_prefix("differs ") {
            c.viol(format!("differs:{}:{}", kind, d.split(' ').next().unwrap()), format!("{} for {}", clip(d, 300), show(600)));
        }
    }
    let e = v.iter().find_map(|n| n.strip_prefix("error ")).unwrap_or("");
    c.count(&format!("{} {} {}", kind, how, v[0]));
    if !e.is_empty() {
        c.seen("error texts", &e.chars().filter(|c| c.is_ascii_alphabetic()).take(60).collect::<String>());
    }
    Some(v[0] == "ok")
}
fn one(c: &mut Case) {
    let kind = *c.rng.pick(&KINDS);
    let (t, how) = untrusted::text(kind, &mut c.rng);
    c.eval(!t.is_empty(), &format!("{}{:?}", kind, t));
    c.add("bytes", t.len() as u64);
    if std::str::from_utf8(&t).is_err() {
        c.count("texts that are not UTF-8");
    }
    c.sample(|| format!("{} {}: {}", kind, how, clip(&String::from_utf8_lossy(&t), 300)));
    judge(c, kind, how, &t);
}

/// places in which brackets nest: text before, opening, middle, closing, text after
pub const NESTS: &[(char, &str, &str, &str, &str, &str)] = &[
    ('i', "metadata a = ", "[", "1", "]", "\n"),
    ('i', "metadata a = ", "[1,", "1", "]", "\n"),
    ('i', "metadata a = ", "{a:", "1", "}", "\n"),
    ('i', "metadata a = ", "{\"a\":[", "", "]}", "\n"),
    ('i', "namespace ex.a\n@t(", "[", "", "]", ")\nstring A\n"),
    ('i', "namespace ex.a\n@t(a:", "{a:", "1", "}", ")\nstring A\n"),
    ('i', "namespace ex.a\nstructure S { @t(", "[", "", "]", ") a: A }\n"),
    ('i', "namespace ex.a\napply A @t(", "{a: {b:", "1", "}}", ")\n"),
    ('i', "namespace ex.a\nservice S { version: \"1\", rename: ", "{a:", "\"b\"", "}", "}\n"),
    ('i', "namespace ex.a\noperation O { errors: ", "[", "A", "]", "}\n"),
    ('i', "namespace ex.a\n", "@t(", "1", ")", "string A\n"),
    ('i', "namespace ex.a\nstructure S ", "{ a:", "A", "}", "\n"),
    ('i', "namespace ex.a\n", "structure S {", "", "}", "\n"),
    ('i', "", "(", "", ")", ""),
    ('i', "", "\"\"\"", "", "\"\"\"", ""),
    ('i', "namespace ex.a\n", "// {[(\n", "string A", "\n// )]}", "\n"),
    ('i', "// a\rmetadata a = ", "[", "1", "]", "\n"),
    ('i', "// ]\\\" '\r\nmetadata a = ", "{a: [", "1", "]}", "\n"),
    ('i', "metadata b = \"// \\\"\" metadata a = ", "[", "1", "]", "\n"),
    ('i', "metadata b = \"\"\"\n // \" ]\"\" \"\"\" metadata a = ", "[", "1", "]", "\n"),
    ('i', "namespace ex.a\n/// it's \"\r", "@t(", "1", ")", "string A\n"),
    ('i', "metadata a = \"", "[", "1", "]", "\"\n"),
    ('j', "", "[", "", "]", ""),
    ('j', "", "{\"a\":", "1", "}", ""),
    ('j', "{\"smithy\":\"1.0\",\"metadata\":{\"a\":", "[", "1", "]", "}}"),
    ('j', "{\"smithy\":\"1.0\",\"metadata\":{\"a\":", "{\"a\":", "1", "}", "}}"),
    ('j', "{\"smithy\":\"1.0\",\"metadata\":{\"a\":", "{\"a\":[1,", "1", "]}", "}}"),
    ('j', "{\"smithy\":\"1.0\",\"shapes\":{\"ex.a#A\":{\"type\":\"string\",\"traits\":{\"ex.a#t\":", "[", "1", "]", "}}}}"),
    ('j', "{\"smithy\":\"1.0\",\"shapes\":{\"ex.a#A\":", "{\"type\":\"structure\",\"members\":", "{}", "}", "}}"),
    ('j', "{\"smithy\":\"1.0\",\"shapes\":{\"ex.a#A\":{\"type\":\"list\",\"member\":", "{\"member\":", "{}", "}", "}}}"),
    ('j', "{\"smithy\":\"1.0\",\"other\":", "[{\"a\":", "1", "}]", "}"),
    ('s', "", ":not(", "string", ")", ""),
    ('s', "", ":is(string, ", "list", ")", ""),
    ('s', "", ":test(list > ", "string", ")", ""),
    ('s', "", ":each(", "string", ", *)", ""),
    ('s', "", "* > ", "string", "", ""),
    ('s', "", "[", "id", "]", ""),
    ('s', "", "[@: ", "@{a} = b", "]", ""),
    ('s', "[@: @", "{", "a", "}", " = b]"),
    ('s', "", "$a(", "*", ")", ""),
    ('s', "[id", "|(", "keys", ")", " = a]"),
    ('s', "", "(", "", ")", ""),
    ('s', "", "-[", "a", "]->", ""),
];
fn nested(c: &mut Case) {
    let n = NESTS[c.idx as usize % NESTS.len()];
    let depths = [1usize, 2, 8, 24, 25, 31, 32, 60, 63, 64, 65, 100, 120, 126, 127, 128, 129, 130, 200, 500, 2000, 20000, 200000];
    let (kind, pre, open, mid, close, post) = n;
    for d in depths {
        for closed in [true, false] {
            let mut t = String::new();
            t.push_str(pre);
            t.push_str(&open.repeat(d));
            t.push_str(mid);
            if closed {
                t.push_str(&close.repeat(d));
                t.push_str(post);
            }
            c.eval(true, &format!("{}{}{}{}", pre, open, d, closed));
            c.seen("nesting", &format!("{}{}{}", pre, open, d));
            judge(c, kind, if d > 200 { "deep" } else { "nested" }, t.as_bytes());
        }
    }
}
/// long texts of one repeated piece, with and without a mistake at the end
fn long(c: &mut Case) {
    let pieces: &[(char, &str, &str, &str)] = &[
        ('i', "namespace ex.a\n", "// comment\n", ""),
        ('i', "namespace ex.a\n", "/// documentation\n", "string A\n"),
        ('i', "namespace ex.a\n", " ", ""),
        ('i', "namespace ex.a\n", ",\n", ""),
        ('i', "namespace ex.a\n", "\t\r\n,", "string A"),
        ('i', "namespace ex.a\n", "@t\n", "string A\n"),
        ('i', "namespace ex.a\nstructure S {", "m#: String,\n", "}\n"),
        ('i', "namespace ex.a\nstructure S {", "@t(a: 1) m#: String,\n", "}\n"),
        ('i', "namespace ex.a\n", "string S#\n", ""),
        ('i', "namespace ex.a\n", "use ex.b#S#\n", ""),
        ('i', "", "metadata m# = 1\n", ""),
        ('i', "", "$a#: 1\n", ""),
        ('i', "namespace ex.a\nstring A\n", "apply A @t#\n", ""),
        ('i', "metadata a = [", "1,", "]\n"),
        ('i', "metadata a = {", "k#: 1,", "}\n"),
        ('i', "metadata a = \"", "a", "\"\n"),
        ('i', "metadata a = \"", "\\n", "\"\n"),
        ('i', "metadata a = \"\"\"\n", "line\n", "\"\"\"\n"),
        ('i', "metadata a = \"\"\"\n", "\"\" ", "\"\"\"\n"),
        ('i', "metadata a = ", "1", "\n"),
        ('i', "namespace a", ".a", "\n"),
        ('i', "namespace ex.a\nstring ", "_", "a\n"),
        ('i', "namespace ex.a\nstring ", "a", "\n"),
        ('i', "namespace ex.a\noperation O { errors: [", "E#,", "]}\n"),
        ('i', "namespace ex.a\nservice S { version: \"1\", rename: {", "ex.b#S#: \"T#\",", "}}\n"),
        ('i', "namespace ex.a\n", "é", "\n"),
        ('j', "", " ", "{\"smithy\":\"1.0\"}"),
        ('j', "{\"smithy\":\"1.0\",\"shapes\":{", "\"ex.a#S#\":{\"type\":\"string\"},", "\"ex.a#Z\":{\"type\":\"string\"}}}"),
        ('j', "{\"smithy\":\"1.0\",\"metadata\":{\"a\":[", "1,", "1]}}"),
        ('j', "{\"smithy\":\"1.0\",\"metadata\":{\"a\":\"", "\\u00e9", "\"}}"),
        ('j', "{\"smithy\":\"1.0\",\"metadata\":{\"a\":", "1", "}}"),
        ('j', "{\"smithy\":\"1.0\",\"metadata\":{\"a\":1e", "9", "}}"),
        ('j', "{\"smithy\":\"1.0\",\"shapes\":{\"ex.a#S\":{\"type\":\"structure\",\"members\":{", "\"m#\":{\"target\":\"ex.a#A\"},", "\"z\":{\"target\":\"ex.a#A\"}}}}}"),
        ('s', "", " ", "*"),
        ('s', "*", " > *", ""),
        ('s', "", "string", ""),
        ('s', "*", "[id = a]", ""),
        ('s', "[id = a", ", a", "]"),
        ('s', "[id", "|a", "]"),
        ('s', "[trait|", "a", " = b]"),
        ('s', "[@: @{a} = b", " && @{a} = b", "]"),
        ('s', ":is(*", ", *", ")"),
        ('s', "[id = '", "a", "']"),
        ('s', "* -[a", ", a", "]-> *"),
        ('s', "[id = ", "1", "]"),
        ('s', "*", " $a(*)", ""),
    ];
    let (kind, pre, piece, post) = pieces[c.idx as usize % pieces.len()];
    let sizes: &[usize] = if c.thorough() { &[100, 3000, 20000, 60000] } else { &[100, 3000, 12000] };
    for n in sizes {
        for broken in [false, true] {
            let mut t = pre.to_string();
            for k in 0..*n {
                if piece.contains('#') {
                    // the last one is the number
                    let at = piece.rfind('#').unwrap();
                    let number = |x: &str| x.replace("S#", &format!("S{}", k)).replace("m#", &format!("m{}", k)).replace("k#", &format!("k{}", k)).replace("t#", &format!("t{}", k)).replace("E#", &format!("E{}", k)).replace("T#", &format!("T{}", k)).replace("$a#", &format!("$a{}", k));
                    let _ = at;
                    t.push_str(&number(piece));
                } else {
                    t.push_str(piece);
                }
            }
            t.push_str(if broken { "\u{0}" } else { post });
            c.eval(true, &format!("{}{}{}{}", pre, piece, n, broken));
            c.seen("long texts", &format!("{}{}{}{}", pre, piece, n, broken));
            judge(c, kind, "long", t.as_bytes());
        }
    }
}
/// every text of few tokens that can stand at the same place
fn short(c: &mut Case) {
    let pool: Vec<&str> = untrusted::WORDS.to_vec();
    let n = pool.len();
    let a = pool[c.idx as usize % n];
    for b in std::iter::once("").chain(pool.iter().copied()) {
        for (kind, pre) in [('i', ""), ('i', "namespace ex.a\n"), ('i', "metadata a = "), ('i', "namespace ex.a\nstructure S {"), ('s', ""), ('s', "[id = "), ('s', "[@: "), ('j', "{\"smithy\":")] {
            if c.ctx.quick() && !c.rng.chance(1, 6) {
                continue;
            }
            let t = format!("{}{} {}", pre, a, b);
            c.eval(true, &format!("{}{}", kind, t));
            judge(c, kind, "pairs", t.as_bytes());
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("The texts are read in a process of its own on a thread with the default 2 MiB stack, in a build with overflow checks; no answer within 40 s for texts of at most some hundred kilobytes counts as a hang; the wording of errors is not compared.");
    ctx.rule("each text is read by the same reader twice, a few bytes at a time by another, then a good text by the first: outcomes agree, nothing is printed to standard output and the process survives. Non-trivial when the text is not empty.");
    ctx.bounded("nested", NESTS.len() as u64, nested);
    ctx.bounded("long", 46, long);
    ctx.bounded("pairs", untrusted::WORDS.len() as u64, short);
    ctx.cases("damaged", 60000, 0.8, one);
}
