//! C26: the generated document, flattened to lines per section, against the documented content of every shape.
use crate::am::*;
use crate::fw::{clip, Case, Ctx};
use atelier_core::io::write_model_to_string;
use atelier_describe::document::writer::{describe_model, DocumentationWriter};
use somedoc::model::block::{BlockContent, HasLabel, ListItem};
use somedoc::model::inline::{HyperLinkTarget, InlineContent, SpanStyle};
use somedoc::model::block::HasCaption;
use somedoc::model::{HasInnerContent, HasStyles};
use std::collections::BTreeMap;

#[derive(Debug, Default, Clone)]
struct Section {
    ns: String,
    head: String,
    label: String,
    lines: Vec<String>,
    /// caption and label of links
    links: Vec<(String, String)>,
}

fn inline(v: &[InlineContent], links: &mut Vec<(String, String)>) -> String {
    let mut out = String::new();
    for x in v {
        match x {
            InlineContent::Text(t) => out.push_str(t),
            InlineContent::Span(s) => {
                let t = inline(s.inner(), links);
                if s.styles().iter().any(|s| matches!(s, SpanStyle::Code | SpanStyle::Mono)) {
                    out.push_str(&format!("`{}`", t));
                } else {
                    out.push_str(&t);
                }
            }
            InlineContent::HyperLink(h) => {
                let caption = h.caption().as_ref().map(|c| c.inner().to_string()).unwrap_or_default();
                match h.target() {
                    HyperLinkTarget::Internal(l) => {
                        links.push((caption.clone(), l.to_string()));
                        out.push_str(&format!("[{}]", caption));
                    }
                    HyperLinkTarget::External(u) => out.push_str(&format!("[{}]({})", caption, u)),
                }
            }
            other => out.push_str(&format!("{:?}", other)),
        }
    }
    out
}
fn list(l: &somedoc::model::block::List, s: &mut Section) {
    for i in l.inner() {
        match i {
            ListItem::Item(i) => {
                let t = inline(i.inner(), &mut s.links);
                s.lines.push(format!("- {}", t));
            }
            ListItem::List(l) => list(l, s),
        }
    }
}
fn blocks(v: &[BlockContent], sections: &mut Vec<Section>, ns: &mut String) {
    for b in v {
        if let BlockContent::Heading(h) = b {
            let mut links = vec![];
            let t = inline(h.inner(), &mut links);
            let level = h.level_as_u8();
            if level <= 2 {
                if level == 1 {
                    *ns = t.clone();
                }
                sections.push(Section {
                    ns: ns.clone(),
                    head: if level == 1 { String::new() } else { t },
                    label: h.label().as_ref().map(|l| l.to_string()).unwrap_or_default(),
                    ..Default::default()
                });
            } else {
                sections.last_mut().unwrap().lines.push(format!("h{} {}", level, t));
            }
            continue;
        }
        if let BlockContent::Quote(q) = b {
            blocks(q.inner(), sections, ns);
            continue;
        }
        let s = sections.last_mut().unwrap();
        match b {
            BlockContent::Paragraph(p) => {
                let t = inline(p.inner(), &mut s.links);
                if let Some(rest) = t.strip_prefix("See also: ") {
                    let _ = rest;
                    for x in p.inner() {
                        if let InlineContent::HyperLink(_) = x {
                            let t = inline(std::slice::from_ref(x), &mut s.links);
                            s.lines.push(format!("see {}", t));
                        }
                    }
                } else {
                    s.lines.push(format!("p {}", t));
                }
            }
            BlockContent::List(l) => list(l, s),
            BlockContent::Table(t) => {
                for r in t.rows() {
                    let cells: Vec<String> = r.cells().iter().map(|c| inline(c.inner(), &mut s.links)).collect();
                    s.lines.push(format!("row {:?}", cells));
                }
            }
            other => s.lines.push(clip(&format!("{:?}", other), 200)),
        }
    }
}

fn link(from: &str, to: &str) -> String {
    if ns_of(from).eq_ignore_ascii_case(ns_of(to)) {
        format!("[{}]", to.split(|c| c == '#' || c == '$').nth(1).unwrap_or(""))
    } else {
        format!("`{}`", to)
    }
}
fn rows(id: &str, path: Option<String>, v: &AVal, out: &mut Vec<String>) {
    let cell = |v: Option<String>| v.map(|v| format!("`{}`", v)).unwrap_or_default();
    let mut put = |v: Option<String>| out.push(format!("row {:?}", [id.to_string(), cell(path.clone()), cell(v)]));
    match v {
        AVal::Null => put(None),
        AVal::Bool(b) => put(Some(b.to_string())),
        AVal::Int(i) => put(Some(i.to_string())),
        AVal::Float(_) => put(Some(to_value(v).to_string())),
        AVal::Str(s) => put(Some(s.clone())),
        AVal::Arr(a) if a.is_empty() => put(None),
        AVal::Obj(o) if o.is_empty() => put(None),
        AVal::Arr(a) => a.iter().enumerate().for_each(|(i, x)| rows(id, Some(format!("{}[{}]", path.clone().unwrap_or_default(), i)), x, out)),
        AVal::Obj(o) => o.iter().for_each(|(k, x)| rows(id, Some(format!("{}.{}", path.clone().unwrap_or_default(), k)), x, out)),
    }
}
/// lines for the traits; counts paragraphs whose text is not fixed
fn traits(t: &Traits, out: &mut Vec<String>, free: &mut usize) {
    for (id, v) in t {
        match (id.as_str(), v) {
            ("smithy.api#documentation", Some(AVal::Str(d))) => {
                if let Some(_) = d.strip_prefix("See also: ") {
                    *free += 1;
                } else {
                    out.push(format!("p {}", d));
                }
            }
            ("smithy.api#documentation", Some(AVal::Int(i))) => out.push(format!("p {}", i)),
            ("smithy.api#documentation", Some(AVal::Bool(i))) => out.push(format!("p {}", i)),
            ("smithy.api#documentation", Some(_)) => *free += 1,
            ("smithy.api#documentation", None) => {}
            ("smithy.api#externalDocumentation", Some(AVal::Obj(o))) => {
                for (k, v) in o {
                    match v {
                        AVal::Str(u) => out.push(format!("see [{}]({})", k, u)),
                        _ => *free += 1,
                    }
                }
            }
            ("smithy.api#externalDocumentation", _) => {}
            _ => {
                let name = if ns_of(id) == "smithy.api" { id[11..].to_string() } else { id.clone() };
                match v {
                    None => out.push(format!("row {:?}", [name, String::new(), String::new()])),
                    Some(v) => rows(&name, None, v, out),
                }
            }
        }
    }
}
fn expected(id: &str, s: &AShape) -> (Vec<String>, usize) {
    let (mut out, mut free) = (vec![], 0);
    traits(&s.traits, &mut out, &mut free);
    for (n, m) in s.kind.members() {
        traits(&m.traits, &mut out, &mut free);
        match &s.kind {
            AKind::List(_) | AKind::Set(_) => out.push(format!("p Member type: {}", link(id, &m.target))),
            AKind::Map(..) if n == "key" => out.push(format!("p Key type: {}", link(id, &m.target))),
            AKind::Map(..) => out.push(format!("p , value type: {}", link(id, &m.target))),
            _ => out.push(format!("p `{}`: {}", n, link(id, &m.target))),
        }
    }
    let items = |h: &str, v: &Vec<Id>, out: &mut Vec<String>| {
        if !v.is_empty() {
            out.push(h.to_string());
            v.iter().for_each(|x| out.push(format!("- {}", link(id, x))));
        }
    };
    match &s.kind {
        AKind::Structure(m) | AKind::Union(m) => {
            if !m.is_empty() {
                out.push("h3 Members".into());
            }
        }
        AKind::Service(v) => {
            out.push(format!("p Service version: {}", v.version));
            items("h3 Operations", &v.operations, &mut out);
            items("h3 Resources", &v.resources, &mut out);
            if !v.renames.is_empty() {
                out.push("h3 Renames".into());
                v.renames.iter().for_each(|(k, n)| out.push(format!("- `{}` renamed to `{}`", k, n)));
            }
        }
        AKind::Operation(v) => {
            v.input.iter().for_each(|x| out.push(format!("p Input type: {}", link(id, x))));
            v.output.iter().for_each(|x| out.push(format!("p Output type: {}", link(id, x))));
            items("p Errors:", &v.errors, &mut out);
        }
        AKind::Resource(v) => {
            if v.lifecycle().iter().any(|x| x.1.is_some()) {
                out.push("h3 Resource Operations".into());
            }
            for (n, x) in v.lifecycle() {
                x.iter().for_each(|x| out.push(format!("- `{}`: {}", n, link(id, x))));
            }
            items("h3 Operations", &v.operations, &mut out);
            items("h3 Collection Operations", &v.collection_operations, &mut out);
            items("h3 Resources", &v.resources, &mut out);
        }
        _ => {}
    }
    out.sort();
    (out, free)
}
fn tag(l: &str) -> String {
    let w: Vec<&str> = l.split(' ').collect();
    match w[0] {
        "h3" => format!("heading:{}", w[1..].join("-")),
        "p" if l.starts_with("p `") => "member".into(),
        "p" => ["Member type", "Key type", ", value type", "Service version", "Input type", "Output type", "Errors"].iter().find(|t| l[2..].starts_with(**t)).unwrap_or(&"text").replace(' ', "-"),
        "-" => "item".into(),
        "row" => "trait".into(),
        o => o.into(),
    }
}

fn check(c: &mut Case, a: &AModel) {
    let m = to_model_shuffled(a, &mut c.rng);
    c.eval(a.nontrivial(), &a.dump().join(";"));
    c.sample(|| clip(&a.dump().join("; "), 200));
    let sections = match c.lib("describe_model", || {
        describe_model(&m)
            .map(|d| {
                let mut s = vec![Section::default()];
                blocks(d.inner(), &mut s, &mut String::new());
                s
            })
            .map_err(|e| e.to_string())
    }) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return c.viol("refused", clip(&e, 300)),
        None => return,
    };
    let mut by: BTreeMap<(String, String), &Section> = BTreeMap::new();
    for s in &sections {
        if s.head.ends_with("(?)") {
            continue;
        }
        if by.insert((s.ns.clone(), s.head.clone()), s).is_some() {
            c.viol("section-repeated", format!("{} / {}", s.ns, s.head));
        }
    }
    c.add("sections", sections.len() as u64);
    if !sections[0].lines.iter().any(|l| l == "p Smithy Version: 1.0") {
        c.viol("smithy-version", format!("{:?}", sections[0].lines));
    }
    match by.get(&("Metadata".to_string(), String::new())) {
        None => {
            if !a.metadata.is_empty() {
                c.viol("no-metadata", String::new());
            }
        }
        Some(s) => {
            for (k, v) in &a.metadata {
                let start = format!("row {:?}", [k]);
                let mine: Vec<&String> = s.lines.iter().filter(|l| l.starts_with(start.trim_end_matches(']')) && l[start.len() - 1..].starts_with(", ")).collect();
                let text = match v {
                    AVal::Int(i) => Some(i.to_string()),
                    AVal::Bool(b) => Some(b.to_string()),
                    AVal::Str(s) => Some(format!("{:?}", s).trim_matches('"').to_string()),
                    _ => None,
                };
                if mine.len() != 1 {
                    c.viol("metadata-key", format!("{} rows for {:?} in {:?}", mine.len(), k, s.lines.len()));
                } else if let Some(t) = text {
                    if !mine[0].contains(&t) {
                        c.viol("metadata-value", format!("{} for {:?}", mine[0], v));
                    }
                }
            }
            if s.lines.len() != a.metadata.len() {
                c.viol("metadata-rows", format!("{} for {}", s.lines.len(), a.metadata.len()));
            }
        }
    }
    let labels: BTreeMap<(String, String), String> = sections.iter().filter_map(|s| s.head.split(" (").next().map(|n| ((s.ns.clone(), n.to_string()), s.label.clone()))).collect();
    let mut used = 0;
    for (id, s) in &a.shapes {
        if s.kind == AKind::Unresolved {
            continue;
        }
        let kind = s.kind.type_name();
        c.seen("kinds", kind);
        let ns = format!("Namespace {}", ns_of(id));
        let g = match by.get(&(ns.clone(), format!("{} ({})", name_of(id), kind))) {
            Some(g) => g,
            None => {
                c.viol(format!("no-section:{}", kind), format!("{} ; {:?}", id, by.keys().take(20).collect::<Vec<_>>()));
                continue;
            }
        };
        used += 1;
        for (caption, label) in &g.links {
            if let Some(l) = labels.get(&(ns.clone(), caption.clone())) {
                c.count("links");
                if l != label {
                    c.viol("link-to-other-label", format!("{} leads to {} and not {}", caption, label, l));
                }
            }
        }
        let (want, free) = expected(id, s);
        let mut rest = g.lines.clone();
        // identifiers of resources have no section of their own
        let at = rest.iter().position(|l| l == "h3 Identifiers");
        if let Some(at) = at {
            let end = rest[at + 1..].iter().position(|l| l.starts_with("h3")).map(|x| x + at + 1).unwrap_or(rest.len());
            rest.drain(at..end);
        }
        c.add("lines", want.len() as u64);
        for w in &want {
            c.seen("lines", &tag(w));
            match rest.iter().position(|l| l == w) {
                Some(k) => {
                    rest.swap_remove(k);
                }
                None => {
                    c.viol(format!("not-described:{}:{}", kind, tag(w)), format!("{} : {} ; left are {:?}", id, clip(w, 300), rest.iter().filter(|l| tag(l) == tag(w)).take(5).map(|x| clip(x, 300)).collect::<Vec<_>>()));
                    return;
                }
            }
        }
        if rest.len() > free {
            c.viol(format!("described-too-much:{}:{}", kind, tag(&rest[0])), format!("{} : {:?}", id, rest.iter().take(5).map(|x| clip(x, 200)).collect::<Vec<_>>()));
        }
    }
    let others = by.keys().filter(|k| !k.1.is_empty()).count();
    if others != used {
        c.viol("section-of-no-shape", format!("{:?}", by.keys().collect::<Vec<_>>()));
    }
    if c.rng.chance(1, 3) {
        match c.lib("DocumentationWriter", || write_model_to_string(&mut DocumentationWriter::default(), &m).map_err(|e| e.to_string())) {
            Some(Ok(t)) => {
                c.count("documents written");
                for (id, s) in a.shapes.iter().filter(|s| s.1.kind != AKind::Unresolved) {
                    let head = format!("## {} ({})", name_of(id), s.kind.type_name());
                    if !t.lines().any(|l| l.trim() == head) {
                        c.viol("text-without-heading", format!("{} in {}", head, clip(&t, 400)));
                    }
                }
            }
            Some(Err(e)) => c.viol("text-refused", clip(&e, 300)),
            None => {}
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("Identifiers of resources have no section (pinned by a test); rendering of the document as text is an external library's and only checked for the headings; how collections are shown as text is not judged.");
    ctx.rule("every defined shape has one section with its kind under its namespace, holding exactly its documentation, external links, trait rows (identifier, path, value), members with targets and properties; links carry the label of the section of their target. Non-trivial when the model has members, properties or traits.");
    let opts = |r: &mut crate::rng::Rng| GenOpts {
        namespaces: if r.chance(1, 8) { vec!["example.one".into(), "smithy.api".into()] } else { vec!["example.one".into(), "ex.two".into(), "a".into()] },
        shapes: (0, 12),
        metadata: (0, 4),
        typed_refs: r.chance(1, 2),
        unresolved: r.chance(1, 2),
        unresolved_members: r.chance(1, 3),
        dangling: r.chance(1, 3),
        renames: true,
        strings: r.below(3) as u8,
        value_depth: r.below(4),
        ..Default::default()
    };
    ctx.cases("models", 15000, 0.9, |c| {
        let o = opts(&mut c.rng);
        let mut a = gen_model(&mut c.rng, &o);
        for (_, s) in a.shapes.iter_mut() {
            if s.kind == AKind::Unresolved {
                continue;
            }
            let mut all: Vec<&mut Traits> = vec![&mut s.traits];
            all.extend(s.kind.members_mut().into_iter().map(|m| &mut m.1.traits));
            for t in all {
                if c.rng.chance(1, 6) {
                    let d = match c.rng.below(4) {
                        0 => Some(AVal::Str("two\nlines with *marks* and `code`".into())),
                        1 => Some(AVal::Str(gen_string(&mut c.rng, 2))),
                        2 => Some(gen_val(&mut c.rng, &o, 2)),
                        _ => None,
                    };
                    t.insert("smithy.api#documentation".into(), d);
                }
                if c.rng.chance(1, 8) {
                    let d = match c.rng.below(3) {
                        0 => Some(gen_val(&mut c.rng, &o, 2)),
                        _ => Some(AVal::Obj([("Homepage".to_string(), AVal::Str("https://example.com/?a=b#c".into())), (gen_key(&mut c.rng, &o), AVal::Str(gen_string(&mut c.rng, 1)))].into_iter().collect())),
                    };
                    t.insert("smithy.api#externalDocumentation".into(), d);
                }
            }
        }
        check(c, &a);
    });
    ctx.bounded("empty", 1, |c| check(c, &AModel::default()));
}
