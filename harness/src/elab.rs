//! Reference elaboration of a document or builder program: name resolution plus the merge rules of `refm`.
use crate::am::*;
use crate::refm;
use std::collections::{BTreeMap, BTreeSet};

pub type Tb = (String, Option<AVal>);
#[derive(Clone, Debug)]
pub struct Mem {
    pub name: String,
    pub target: String,
    pub traits: Vec<Tb>,
}
#[derive(Clone, Debug)]
pub enum DKind {
    Simple(usize),
    List(Mem),
    Set(Mem),
    Map(Mem, Mem),
    Structure(Vec<Mem>),
    Union(Vec<Mem>),
    Service(AService),
    Operation(AOperation),
    Resource(AResource),
}
#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub kind: DKind,
    pub traits: Vec<Tb>,
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub ns: String,
    pub uses: Vec<String>,
    pub refs: Vec<(String, Vec<Tb>)>,
    pub defs: Vec<Def>,
    pub applies: Vec<(String, Tb)>,
    pub meta: Vec<(String, AVal)>,
}

// ---- reference elaboration --------------------------------------------------------------------------------------
pub fn abs_def(ns: &str, n: &str) -> String {
    if n.contains('#') {
        n.to_string()
    } else {
        format!("{}#{}", ns, n)
    }
}
pub struct Elab<'p> {
    p: &'p Prog,
    local: BTreeSet<String>,
    pub unresolved: BTreeSet<String>,
}
pub type R<T> = Result<T, String>;
impl<'p> Elab<'p> {
    pub fn new(p: &'p Prog) -> Self {
        let local = p
            .defs
            .iter()
            .filter(|d| !d.name.contains('#') || ns_of(&d.name) == p.ns)
            .map(|d| name_of(&d.name).to_string())
            .collect();
        Elab { p, local, unresolved: BTreeSet::new() }
    }
    fn imports(&self, n: &str) -> Vec<&str> {
        let mut v: Vec<&str> = self
            .p
            .uses
            .iter()
            .map(|s| s.as_str())
            .chain(self.p.refs.iter().map(|r| r.0.as_str()))
            .filter(|u| name_of(u) == n)
            .collect();
        v.sort();
        v.dedup();
        v
    }
    fn resolve(&mut self, n: &str, is_trait: bool) -> R<String> {
        if n.contains('#') {
            return if n.contains('$') { Err(format!("member id {}", n)) } else { Ok(n.to_string()) };
        }
        let imp = self.imports(n);
        let here = format!("{}#{}", self.p.ns, n);
        match imp.len() {
            0 => {}
            1 if imp[0] == here || !self.local.contains(n) => return Ok(imp[0].to_string()),
            _ => return Err(format!("ambiguous {}", n)),
        }
        if self.local.contains(n) {
            return Ok(here);
        }
        let prelude = if is_trait {
            PRELUDE_TRAITS.contains(&n)
        } else {
            PRELUDE_SIMPLE.contains(&n)
        };
        if prelude {
            return Ok(format!("smithy.api#{}", n));
        }
        self.unresolved.insert(here.clone());
        Ok(here)
    }
    fn traits(&mut self, ts: &[Tb]) -> R<Traits> {
        let mut out = Traits::new();
        for (n, v) in ts {
            let id = self.resolve(n, true)?;
            refm::apply_trait(&mut out, &id, v).map_err(|e| format!("{:?}", e))?;
        }
        Ok(out)
    }
    fn mem(&mut self, m: &Mem) -> R<AMember> {
        Ok(AMember { target: self.resolve(&m.target, false)?, traits: self.traits(&m.traits)? })
    }
    fn mems(&mut self, ms: &[Mem]) -> R<BTreeMap<String, AMember>> {
        let mut out = BTreeMap::new();
        for m in ms {
            let am = self.mem(m)?;
            if out.insert(m.name.clone(), am).is_some() {
                return Err(format!("duplicate member {}", m.name));
            }
        }
        Ok(out)
    }
    fn all(&mut self, v: &[String]) -> R<Vec<String>> {
        v.iter().map(|n| self.resolve(n, false)).collect()
    }
    fn opt(&mut self, v: &Option<String>) -> R<Option<String>> {
        v.as_ref().map(|n| self.resolve(n, false)).transpose()
    }
    fn kind(&mut self, k: &DKind) -> R<AKind> {
        Ok(match k {
            DKind::Simple(i) => AKind::Simple(SIMPLE[*i].to_string()),
            DKind::List(m) => AKind::List(self.mem(m)?),
            DKind::Set(m) => AKind::Set(self.mem(m)?),
            DKind::Map(k, v) => AKind::Map(self.mem(k)?, self.mem(v)?),
            DKind::Structure(m) => AKind::Structure(self.mems(m)?),
            DKind::Union(m) => AKind::Union(self.mems(m)?),
            DKind::Service(s) => AKind::Service(AService {
                version: s.version.clone(),
                operations: self.all(&s.operations)?,
                resources: self.all(&s.resources)?,
                renames: s.renames.clone(),
            }),
            DKind::Operation(o) => {
                AKind::Operation(AOperation { input: self.opt(&o.input)?, output: self.opt(&o.output)?, errors: self.all(&o.errors)? })
            }
            DKind::Resource(r) => {
                let mut identifiers = BTreeMap::new();
                for (k, v) in &r.identifiers {
                    identifiers.insert(k.clone(), self.resolve(v, false)?);
                }
                AKind::Resource(AResource {
                    identifiers,
                    create: self.opt(&r.create)?,
                    put: self.opt(&r.put)?,
                    read: self.opt(&r.read)?,
                    update: self.opt(&r.update)?,
                    delete: self.opt(&r.delete)?,
                    list: self.opt(&r.list)?,
                    operations: self.all(&r.operations)?,
                    collection_operations: self.all(&r.collection_operations)?,
                    resources: self.all(&r.resources)?,
                })
            }
        })
    }
    pub fn run(&mut self) -> R<AModel> {
        let e = |x: refm::Conflict| format!("{:?}", x);
        let p = self.p;
        let mut m = AModel::default();
        for (k, v) in &p.meta {
            refm::add_metadata(&mut m, k, v).map_err(e)?;
        }
        for d in &p.defs {
            if d.name.contains('$') {
                return Err("member id defined".into());
            }
            if !d.name.contains('#') {
                self.resolve(&d.name, false)?;
            }
            let s = AShape { kind: self.kind(&d.kind)?, traits: self.traits(&d.traits)? };
            refm::add_shape(&mut m, &abs_def(&p.ns, &d.name), &s).map_err(e)?;
        }
        let unresolved = |traits| AShape { kind: AKind::Unresolved, traits };
        for u in &p.uses {
            refm::add_shape(&mut m, u, &unresolved(Traits::new())).map_err(e)?;
        }
        for (u, t) in &p.refs {
            let s = unresolved(self.traits(t)?);
            refm::add_shape(&mut m, u, &s).map_err(e)?;
        }
        for (n, t) in &p.applies {
            let id = if n.contains('#') {
                n.clone()
            } else {
                match n.split_once('$') {
                    Some((top, mem)) => format!("{}${}", self.resolve(top, false)?, mem),
                    None => self.resolve(n, false)?,
                }
            };
            let ts = self.traits(std::slice::from_ref(t))?;
            if let Some((top, mem)) = id.split_once('$') {
                if let Some(s) = m.shapes.get_mut(top).filter(|s| s.kind != AKind::Unresolved) {
                    let mut ms = s.kind.members_mut();
                    match ms.iter_mut().find(|x| x.0 == mem) {
                        None => return Err(format!("no member {}", id)),
                        Some((_, am)) => {
                            for (t, v) in &ts {
                                refm::apply_trait(&mut am.traits, t, v).map_err(e)?;
                            }
                        }
                    }
                    continue;
                }
            }
            refm::add_shape(&mut m, &id, &unresolved(ts)).map_err(e)?;
        }
        for u in self.unresolved.clone() {
            refm::add_shape(&mut m, &u, &unresolved(Traits::new())).map_err(e)?;
        }
        Ok(m)
    }
}

