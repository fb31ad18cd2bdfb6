use crate::json::J;
use rustc_abi::{FieldsShape, Size, TagEncoding, VariantIdx, Variants};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv,
    VtblEntry,
};
use rustc_middle::ty::layout::{HasTypingEnv, TyAndLayout};
use rustc_middle::ty::TypeVisitableExt;
use rustc_span::Span;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: Vec<J>,
    ty_ix: FxHashMap<Ty<'tcx>, usize>,
    inst_ix: FxHashMap<Instance<'tcx>, usize>,
    insts: Vec<Instance<'tcx>>,
    vtabs: FxHashMap<(Ty<'tcx>, Ty<'tcx>), usize>,
    vtab_out: Vec<J>,
    stop: FxHashSet<String>,
    stop_prefix: Vec<String>,
    mono: bool,
    redir: FxHashMap<String, DefId>,
    statics: Vec<J>,
    static_seen: FxHashSet<DefId>,
}

type P<'tcx> = TyAndLayout<'tcx>;

fn cname(tcx: TyCtxt<'_>, d: DefId) -> String {
    // crate-qualified definition path without generic arguments; impl blocks are
    // rendered by the head of their self type
    let mut s = tcx.crate_name(d.krate).to_string();
    for p in tcx.def_path(d).data {
        use rustc_hir::definitions::DefPathData::*;
        match p.data {
            TypeNs(n) | ValueNs(n) | MacroNs(n) => {
                s.push_str("::");
                s.push_str(n.as_str());
            }
            Closure => s.push_str(&format!("::{{closure#{}}}", p.disambiguator)),
            Ctor => s.push_str("::{ctor}"),
            AnonConst => s.push_str(&format!("::{{const#{}}}", p.disambiguator)),
            Impl => s.push_str(&format!("::{{impl#{}}}", p.disambiguator)),
            ref o => s.push_str(&format!("::{{{:?}}}", o)),
        }
    }
    s
}

impl<'tcx> Cx<'tcx> {
    fn head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => cname(self.tcx, d.did()),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.head(*t)),
            ty::RawPtr(t, _) => format!("*{}", self.head(*t)),
            ty::Slice(t) => format!("[{}]", self.head(*t)),
            ty::Array(t, _) => format!("[{}; N]", self.head(*t)),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.head(t)).collect::<Vec<_>>().join(",")),
            ty::Param(p) => p.name.to_string(),
            ty::Closure(d, _) => cname(self.tcx, *d),
            ty::Dynamic(p, ..) => format!("dyn {}", p.principal_def_id().map(|d| cname(self.tcx, d)).unwrap_or_default()),
            ty::FnDef(d, _) => format!("fn {}", cname(self.tcx, *d)),
            _ => with_no_trimmed_paths!(t.to_string()),
        }
    }

    /// Name used to match models and rules.
    fn fname(&self, d: DefId) -> String {
        let tcx = self.tcx;
        // closures and nested items: name the enclosing fn
        if tcx.is_closure_like(d) {
            let p = tcx.parent(d);
            let key = tcx.def_key(d);
            return format!("{}::{{closure#{}}}", self.fname(p), key.disambiguated_data.disambiguator);
        }
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::Ctor(..) | DefKind::Struct | DefKind::Enum | DefKind::Variant => {}
            DefKind::Impl { .. } => {
                let s = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                return match tcx.impl_opt_trait_ref(d) {
                    Some(t) => {
                        let tr = t.instantiate_identity().skip_norm_wip();
                        let mut extra: Vec<String> = vec![];
                        for a in tr.args.types().skip(1) {
                            extra.push(self.head(a));
                        }
                        let ex = if extra.is_empty() { String::new() } else { format!("<{}>", extra.join(",")) };
                        format!("<{} as {}{}>", self.head(s), cname(tcx, tr.def_id), ex)
                    }
                    None => self.head(s),
                };
            }
            DefKind::AnonConst => {
                return format!("{}::{{const}}", self.fname(tcx.parent(d)));
            }
            _ => return cname(tcx, d),
        }
        let Some(p) = tcx.opt_parent(d) else { return cname(tcx, d) };
        let n = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{ctor}".into());
        match tcx.def_kind(p) {
            DefKind::Impl { .. } | DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::AnonConst | DefKind::Const { .. } | DefKind::AssocConst { .. } => format!("{}::{}", self.fname(p), n),
            _ => format!("{}::{}", cname(tcx, p), n),
        }
    }

    fn args_str(&self, args: GenericArgsRef<'tcx>) -> String {
        with_no_trimmed_paths!(args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| a.to_string())
            .collect::<Vec<_>>()
            .join(", "))
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_else(|| "?".into()),
            o => format!("{:?}", o),
        };
        J::Arr(vec![J::s(f), J::i(lo.line)])
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let ix = self.tys.len();
        self.tys.push(J::Null);
        self.ty_ix.insert(t, ix);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(with_no_trimmed_paths!(t.to_string())))];
        match *t.kind() {
            ty::Adt(d, args) => {
                o.push(("k", J::s(if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" })));
                o.push(("name", J::s(cname(tcx, d.did()))));
                let targs: Vec<J> = args.types().map(|t| J::i(self.ty(t))).collect();
                o.push(("args", J::Arr(targs)));
                let transp = d.repr().transparent() && d.is_struct();
                if transp {
                    o.push(("transp", J::i(self.transp_field(d, args).unwrap_or(0))));
                }
                if d.is_box() {
                    o.push(("box", J::Bool(true)));
                }
                let mut vs = vec![];
                let discs: Vec<(VariantIdx, i128)> = if d.is_enum() {
                    d.discriminants(tcx)
                        .map(|(i, x)| {
                            let v = if matches!(x.ty.kind(), ty::Int(_)) {
                                let sz = self.layout(x.ty).map(|l| l.size.bits()).unwrap_or(64);
                                let sh = 128 - sz as u32;
                                ((x.val << sh) as i128) >> sh
                            } else {
                                x.val as i128
                            };
                            (i, v)
                        })
                        .collect()
                } else {
                    vec![]
                };
                for (i, v) in d.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                        fs.push(J::Arr(vec![J::s(f.name.as_str()), J::i(self.ty(ft))]));
                    }
                    let disc = discs.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(0);
                    vs.push(J::Obj(vec![("n", J::s(v.name.as_str())), ("d", J::Int(disc)), ("f", J::Arr(fs))]));
                }
                o.push(("v", J::Arr(vs)));
            }
            ty::Ref(_, p, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                o.push(("to", J::i(self.ty(p))));
            }
            ty::RawPtr(p, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::Bool(m.is_mut())));
                o.push(("to", J::i(self.ty(p))));
            }
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                o.push(("to", J::i(self.ty(e))));
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                o.push(("to", J::i(self.ty(e))));
                o.push(("len", n.try_to_target_usize(tcx).map(|n| J::UInt(n as u128)).unwrap_or(J::Null)));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|t| J::i(self.ty(t))).collect();
                o.push(("to", J::Arr(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("name", J::s(self.fname(d))));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| J::i(self.ty(t))).collect();
                o.push(("to", J::Arr(up)));
                if self.mono && !t.has_param() {
                    let i = Instance::new_raw(d, args);
                    let i = self.inst(i);
                    o.push(("inst", J::i(i)));
                }
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("name", J::s(self.fname(d))));
                let args = args.no_bound_vars().unwrap_or(ty::List::empty());
                if self.mono && !t.has_param() && !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args) {
                        let i = self.inst(i);
                        o.push(("inst", J::i(i)));
                    }
                }
                if let DefKind::Ctor(..) = tcx.def_kind(d) {
                    let i = Instance::new_raw(d, args);
                    let i = self.inst(i);
                    o.push(("inst", J::i(i)));
                }
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(p, ..) => {
                o.push(("k", J::s("dyn")));
                o.push(("name", J::s(p.principal_def_id().map(|d| cname(tcx, d)).unwrap_or_default())));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::s(p.name.as_str())));
            }
            ty::Int(i) => {
                o.push(("k", J::s("int")));
                o.push(("bits", J::UInt(i.bit_width().unwrap_or(64) as u128)));
                o.push(("signed", J::Bool(true)));
            }
            ty::Uint(i) => {
                o.push(("k", J::s("int")));
                o.push(("bits", J::UInt(i.bit_width().unwrap_or(64) as u128)));
                o.push(("signed", J::Bool(false)));
            }
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Never => o.push(("k", J::s("never"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.tys[ix] = J::Obj(o);
        ix
    }

    fn transp_field(&self, d: ty::AdtDef<'tcx>, args: GenericArgsRef<'tcx>) -> Option<usize> {
        // index of the only non-1-ZST field of a repr(transparent) struct
        if !(d.repr().transparent() && d.is_struct()) {
            return None;
        }
        let v = d.non_enum_variant();
        if v.fields.len() == 1 {
            return Some(0);
        }
        for (i, f) in v.fields.iter().enumerate() {
            let ft = f.ty(self.tcx, args).skip_norm_wip();
            if ft.is_phantom_data() {
                continue;
            }
            match self.tcx.layout_of(self.env.as_query_input(ft)) {
                Ok(l) if l.is_1zst() => continue,
                _ => return Some(i),
            }
        }
        Some(0)
    }

    /// Two semantics-preserving replacements applied when an instance is resolved:
    /// iterator adaptor overrides of std collection iterators fall back to the provided
    /// (default) method body, and functions listed in MIRFACTS_REDIRECT are replaced by
    /// a plain-Rust model with the same generic parameters in the probe crate.
    fn redirect(&mut self, i: Instance<'tcx>) -> Instance<'tcx> {
        let tcx = self.tcx;
        if !self.mono {
            return i;
        }
        let InstanceKind::Item(d) = i.def else { return i };
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            return i;
        }
        let name = self.fname(d);
        if let Some(m) = self.redir.get(&name) {
            let g = tcx.generics_of(*m);
            if g.count() == tcx.generics_of(d).count() {
                return Instance::new_raw(*m, i.args);
            }
            // lifetimes may be early-bound in one and late-bound in the other
            let a: Vec<_> = i.args.iter().filter(|a| a.as_region().is_none()).collect();
            if g.count() == a.len() {
                return Instance::new_raw(*m, tcx.mk_args(&a));
            }
            eprintln!("mirfacts: redirect arity mismatch for {name} ({} vs {})", g.count(), a.len());
            return i;
        }
        if let Some(im) = tcx.trait_impl_of_assoc(d) {
            let tr = tcx.impl_trait_ref(im).skip_binder();
            let tn = cname(tcx, tr.def_id);
            if tn == "core::iter::traits::iterator::Iterator" || tn == "core::iter::traits::double_ended::DoubleEndedIterator" {
                let m = tcx.item_name(d);
                if ["next", "next_back", "size_hint"].contains(&m.as_str()) || name.contains("GenericShunt") {
                    return i;
                }
                if let Some(ti) = tcx.associated_item(d).trait_item_def_id() {
                    if tcx.defaultness(ti).has_value() {
                        let tr = tcx.impl_trait_ref(im).instantiate(tcx, i.args).skip_norm_wip();
                        let args = i.args.rebase_onto(tcx, im, tr.args);
                        let args = tcx.erase_and_anonymize_regions(args);
                        let args = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
                        return Instance::new_raw(ti, args);
                    }
                }
            }
        }
        i
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.redirect(i);
        if let Some(x) = self.inst_ix.get(&i) {
            return *x;
        }
        let ix = self.insts.len();
        self.insts.push(i);
        self.inst_ix.insert(i, ix);
        ix
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut t = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, fty) => {
                    let mut a = vec![J::s("f"), J::i(f.as_usize()), J::i(self.ty(fty))];
                    if let ty::Adt(d, args) = t.ty.kind() {
                        if let Some(k) = self.transp_field(*d, args) {
                            a.push(J::i(if k == f.as_usize() { 1 } else { 2 }));
                        }
                    }
                    J::Arr(a)
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("ci"),
                    J::UInt(offset as u128),
                    J::UInt(min_length as u128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    J::s("ss"),
                    J::UInt(from as u128),
                    J::UInt(to as u128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Downcast(_, v) => J::Arr(vec![J::s("d"), J::i(v.as_usize())]),
                _ => J::s("other"),
            };
            t = t.projection_ty(self.tcx, e);
            pr.push(j);
        }
        J::Arr(vec![J::i(p.local.as_usize()), J::Arr(pr)])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(body, p)]),
            Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(body, p)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = self.constant(c.const_, c.span);
                J::Arr(vec![J::s("k"), J::i(ti), v])
            }
            _ => J::Arr(vec![J::s("rt"), J::s(format!("{:?}", o))]),
        }
    }

    fn constant(&mut self, c: Const<'tcx>, span: Span) -> J {
        let ty = c.ty();
        if let ty::FnDef(..) = ty.kind() {
            return J::s("zst");
        }
        if c.has_param() || ty.has_param() {
            // polymorphic: only literal strings/ints are needed
            if let Const::Unevaluated(u, _) = c {
                return J::Obj(vec![("uneval", J::s(self.fname(u.def)))]);
            }
        }
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                // remember the name of the item (associated/const item)
                if let Ok(v) = c.eval(self.tcx, self.env, span) {
                    let n = self.fname(u.def);
                    let v = self.const_value(v, ty);
                    return J::Obj(vec![("item", J::s(n)), ("v", v)]);
                }
            }
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                // promoteds of a default method body must not be re-resolved to the override
                let gid = rustc_middle::mir::interpret::GlobalId { instance: Instance::new_raw(u.def, u.args), promoted: Some(p) };
                return match self.tcx.const_eval_global_id(self.env, gid, span) {
                    Ok(v) => self.const_value(v, ty),
                    Err(_) => J::s("err"),
                };
            }
        }
        match c.eval(self.tcx, self.env, span) {
            Ok(v) => self.const_value(v, ty),
            Err(_) => J::s("err"),
        }
    }

    fn layout(&self, t: Ty<'tcx>) -> Option<P<'tcx>> {
        self.tcx.layout_of(self.env.as_query_input(t)).ok()
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::ZeroSized => self.zst(t),
            ConstValue::Scalar(s) => self.scalar(s, t, None),
            ConstValue::Slice { alloc_id, meta } => {
                let Some(to) = t.builtin_deref(true) else { return J::s("?slice") };
                self.pointee(alloc_id, Size::ZERO, to, Some(meta), 0)
            }
            ConstValue::Indirect { alloc_id, offset } => self.read(alloc_id, offset, t, 0),
        }
    }

    fn zst(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Adt(d, args) if d.is_struct() => {
                let fs: Vec<Ty<'tcx>> = d.non_enum_variant().fields.iter().map(|f| f.ty(self.tcx, args).skip_norm_wip()).collect();
                let fs: Vec<J> = fs.into_iter().map(|f| self.zst(f)).collect();
                let ti = self.ty(t);
                J::Obj(vec![("adt", J::i(ti)), ("var", J::i(0)), ("f", J::Arr(fs))])
            }
            ty::Tuple(ts) => J::Obj(vec![("tup", J::Arr(ts.iter().map(|t| self.zst(t)).collect()))]),
            ty::Array(..) => J::Obj(vec![("arr", J::Arr(vec![]))]),
            _ => J::s("zst"),
        }
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, _m: Option<u64>) -> J {
        match s {
            Scalar::Int(i) => match t.kind() {
                ty::Int(_) => {
                    let size = i.size();
                    J::Int(i.to_int(size))
                }
                ty::Bool => J::Bool(i.to_uint(i.size()) != 0),
                ty::Uint(_) => J::UInt(i.to_uint(i.size())),
                ty::Char => J::Obj(vec![("char", J::UInt(i.to_uint(i.size())))]),
                ty::Float(f) => {
                    let b = i.to_uint(i.size());
                    let v = match f.bit_width() {
                        32 => f32::from_bits(b as u32) as f64,
                        _ => f64::from_bits(b as u64),
                    };
                    J::Obj(vec![("float", J::s(format!("{}", v)))])
                }
                ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                    // wrap scalar into its aggregate through a fake memory read
                    self.scalar_aggregate(s, t)
                }
                _ => J::Obj(vec![("bits", J::UInt(i.to_uint(i.size())))]),
            },
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match t.kind() {
                    ty::Ref(_, to, _) | ty::RawPtr(to, _) => self.pointee(id, off, *to, None, 0),
                    ty::FnPtr(..) => self.fnalloc(id),
                    _ => self.scalar_aggregate(s, t),
                }
            }
        }
    }

    fn fnalloc(&mut self, id: AllocId) -> J {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => {
                let i = self.inst(instance);
                J::Obj(vec![("fn", J::i(i))])
            }
            _ => J::s("?fn"),
        }
    }

    fn scalar_aggregate(&mut self, s: Scalar, t: Ty<'tcx>) -> J {
        let Some(l) = self.layout(t) else { return J::s("?layout") };
        match t.kind() {
            ty::Adt(d, args) => {
                let vi = match &l.variants {
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag_encoding, tag, .. } => match s {
                        Scalar::Int(i) => {
                            let b = i.to_uint(i.size());
                            match tag_encoding {
                                TagEncoding::Direct => match d.discriminants(self.tcx).find(|x| (x.1.val & mask(i.size())) == b) {
                                    Some(x) => x.0,
                                    None => return J::s("?disc"),
                                },
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let rel = b.wrapping_sub(*niche_start) & mask(tag.size(&self.tcx));
                                    let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if rel <= n {
                                        VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            }
                        }
                        Scalar::Ptr(..) => match tag_encoding {
                            TagEncoding::Niche { untagged_variant, .. } => *untagged_variant,
                            _ => return J::s("?disc"),
                        },
                    },
                    Variants::Empty => return J::s("?empty"),
                };
                let mut fs = vec![];
                let fields: Vec<Ty<'tcx>> = d.variant(vi).fields.iter().map(|f| {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft)
                }).collect();
                for ft in fields {
                    let z = self.layout(ft).map(|l| l.is_zst()).unwrap_or(false);
                    fs.push(if z { self.zst(ft) } else { self.scalar(s, ft, None) });
                }
                let transp = self.transp_field(*d, args);
                if let Some(k) = transp {
                    return fs.swap_remove(k);
                }
                let ti = self.ty(t);
                J::Obj(vec![("adt", J::i(ti)), ("var", J::i(vi.as_usize())), ("f", J::Arr(fs))])
            }
            ty::Tuple(ts) => {
                let mut fs = vec![];
                for ft in ts.iter() {
                    let z = self.layout(ft).map(|l| l.is_zst()).unwrap_or(false);
                    fs.push(if z { self.zst(ft) } else { self.scalar(s, ft, None) });
                }
                J::Obj(vec![("tup", J::Arr(fs))])
            }
            ty::Array(e, _) => {
                let v = self.scalar(s, *e, None);
                J::Obj(vec![("arr", J::Arr(vec![v]))])
            }
            _ => J::s("?agg"),
        }
    }

    /// Value behind a pointer constant.
    fn pointee(&mut self, id: AllocId, off: Size, to: Ty<'tcx>, meta: Option<u64>, depth: usize) -> J {
        if depth > 12 {
            return J::s("?deep");
        }
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Static(d)) => {
                let n = self.fname(d);
                if self.static_seen.insert(d) {
                    if let Ok(_) = self.tcx.eval_static_initializer(d) {
                        let sid = self.tcx.reserve_and_set_static_alloc(d);
                        let _ = sid;
                        let alloc = self.tcx.eval_static_initializer(d).unwrap();
                        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let v = self.read_alloc(alloc.inner(), Size::ZERO, t, depth + 1);
                        self.statics.push(J::Obj(vec![("name", J::s(n.clone())), ("v", v)]));
                    }
                }
                let ti = self.ty(to);
                return J::Obj(vec![("static", J::s(n)), ("t", J::i(ti))]);
            }
            Some(GlobalAlloc::Memory(_)) => {}
            Some(GlobalAlloc::Function { .. }) => return self.fnalloc(id),
            Some(GlobalAlloc::VTable(..)) => return J::s("?vtable"),
            _ => return J::s("?alloc"),
        }
        let GlobalAlloc::Memory(mem) = self.tcx.global_alloc(id) else { unreachable!() };
        let mem = mem.inner();
        let ti = self.ty(to);
        let v = match to.kind() {
            ty::Str => {
                let n = meta.unwrap_or(0) as usize;
                let o = off.bytes() as usize;
                let b = mem.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                return J::Obj(vec![("str", J::s(String::from_utf8_lossy(b)))]);
            }
            ty::Slice(e) => {
                let n = meta.unwrap_or(0);
                if let ty::Uint(ty::UintTy::U8) = e.kind() {
                    let o = off.bytes() as usize;
                    let b = mem.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                    return J::Obj(vec![("bytes", J::Arr(b.iter().map(|x| J::i(*x as usize)).collect()))]);
                }
                let Some(l) = self.layout(*e) else { return J::s("?layout") };
                let mut fs = vec![];
                for i in 0..n {
                    fs.push(self.read_alloc(mem, off + l.size * i, *e, depth + 1));
                }
                J::Obj(vec![("arr", J::Arr(fs))])
            }
            ty::Dynamic(..) => J::s("?dyn"),
            _ => self.read_alloc(mem, off, to, depth + 1),
        };
        J::Obj(vec![("ptr", v), ("t", J::i(ti))])
    }

    fn read(&mut self, id: AllocId, off: Size, t: Ty<'tcx>, depth: usize) -> J {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => self.read_alloc(m.inner(), off, t, depth),
            _ => J::s("?alloc"),
        }
    }

    fn read_alloc(&mut self, m: &rustc_middle::mir::interpret::Allocation, off: Size, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 12 {
            return J::s("?deep");
        }
        let Some(l) = self.layout(t) else { return J::s("?layout") };
        if l.is_zst() {
            return self.zst(t);
        }
        let ptr = self.tcx.data_layout.pointer_size();
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) | ty::FnPtr(..) => {
                let isptr = matches!(t.kind(), ty::FnPtr(..));
                match m.read_scalar(&self.tcx, AllocRange { start: off, size: l.size }, isptr) {
                    Ok(s) => self.scalar(s, t, None),
                    Err(_) => J::s("?uninit"),
                }
            }
            ty::Ref(_, to, _) | ty::RawPtr(to, _) => {
                let s = match m.read_scalar(&self.tcx, AllocRange { start: off, size: ptr }, true) {
                    Ok(s) => s,
                    Err(_) => return J::s("?uninit"),
                };
                let meta = if l.size > ptr {
                    m.read_scalar(&self.tcx, AllocRange { start: off + ptr, size: ptr }, false)
                        .ok()
                        .and_then(|s| match s {
                            Scalar::Int(i) => Some(i.to_uint(i.size()) as u64),
                            _ => None,
                        })
                } else {
                    None
                };
                match s {
                    Scalar::Ptr(p, _) => {
                        let (prov, o) = p.into_raw_parts();
                        self.pointee(prov.alloc_id(), o, *to, meta, depth + 1)
                    }
                    Scalar::Int(i) => match to.kind() {
                        ty::Str if meta == Some(0) => J::Obj(vec![("str", J::s(""))]),
                        ty::Slice(_) if meta == Some(0) => {
                            let ti = self.ty(*to);
                            J::Obj(vec![("ptr", J::Obj(vec![("arr", J::Arr(vec![]))])), ("t", J::i(ti))])
                        }
                        _ => J::Obj(vec![("addr", J::UInt(i.to_uint(i.size())))]),
                    },
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                let Some(el) = self.layout(*e) else { return J::s("?layout") };
                let mut fs = vec![];
                for i in 0..n {
                    fs.push(self.read_alloc(m, off + el.size * i, *e, depth + 1));
                }
                J::Obj(vec![("arr", J::Arr(fs))])
            }
            ty::Tuple(ts) => {
                let mut fs = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let o = l.fields.offset(i);
                    fs.push(self.read_alloc(m, off + o, ft, depth + 1));
                }
                J::Obj(vec![("tup", J::Arr(fs))])
            }
            ty::Adt(d, args) => {
                if d.is_union() {
                    return J::s("?union");
                }
                let vi = match &l.variants {
                    Variants::Single { index } => *index,
                    Variants::Empty => return J::s("?empty"),
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = l.fields.offset(tag_field.as_usize());
                        let ts = tag.size(&self.tcx);
                        let isp = matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_));
                        let s = match m.read_scalar(&self.tcx, AllocRange { start: off + to, size: ts }, isp) {
                            Ok(s) => s,
                            Err(_) => return J::s("?uninit"),
                        };
                        match (s, tag_encoding) {
                            (Scalar::Int(i), TagEncoding::Direct) => {
                                let b = i.to_uint(i.size());
                                match d.discriminants(self.tcx).find(|x| (x.1.val & mask(i.size())) == b) {
                                    Some(x) => x.0,
                                    None => return J::s("?disc"),
                                }
                            }
                            (Scalar::Int(i), TagEncoding::Niche { untagged_variant, niche_variants, niche_start }) => {
                                let b = i.to_uint(i.size());
                                let rel = b.wrapping_sub(*niche_start) & mask(ts);
                                let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                if rel <= n {
                                    VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                } else {
                                    *untagged_variant
                                }
                            }
                            (Scalar::Ptr(..), TagEncoding::Niche { untagged_variant, .. }) => *untagged_variant,
                            _ => return J::s("?disc"),
                        }
                    }
                };
                let vl = l.for_variant(&CxL { tcx: self.tcx, env: self.env }, vi);
                let fields: Vec<Ty<'tcx>> = d.variant(vi).fields.iter().map(|f| {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft)
                }).collect();
                let mut fs = vec![];
                for (i, ft) in fields.iter().enumerate() {
                    let o = match &vl.fields {
                        FieldsShape::Primitive => Size::ZERO,
                        f => f.offset(i),
                    };
                    fs.push(self.read_alloc(m, off + o, *ft, depth + 1));
                }
                if let Some(k) = self.transp_field(*d, args) {
                    return fs.swap_remove(k);
                }
                let ti = self.ty(t);
                J::Obj(vec![("adt", J::i(ti)), ("var", J::i(vi.as_usize())), ("f", J::Arr(fs))])
            }
            _ => J::s("?kind"),
        }
    }

    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) -> J {
        if let Some(i) = self.vtabs.get(&(src, dst)) {
            return J::i(*i);
        }
        let ty::Dynamic(preds, ..) = dst.kind() else { return J::Null };
        let Some(pr) = preds.principal() else { return J::Null };
        let tr = self.tcx.instantiate_bound_regions_with_erased(pr.with_self_ty(self.tcx, src));
        let tr = self.tcx.erase_and_anonymize_regions(tr);
        let ix = self.vtab_out.len();
        self.vtab_out.push(J::Null);
        self.vtabs.insert((src, dst), ix);
        let ents = self.tcx.vtable_entries(tr);
        let mut out = vec![];
        for e in ents {
            out.push(match e {
                VtblEntry::Method(i) => J::i(self.inst(*i)),
                _ => J::Null,
            });
        }
        let si = self.ty(src);
        let di = self.ty(dst);
        self.vtab_out[ix] = J::Obj(vec![("src", J::i(si)), ("dst", J::i(di)), ("e", J::Arr(out))]);
        J::i(ix)
    }

    fn unsize_vtable(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) -> J {
        // pointer-like types: find the pointee pair
        fn inner<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
            match t.kind() {
                ty::Ref(_, t, _) | ty::RawPtr(t, _) => Some(*t),
                ty::Adt(_, a) => a.types().next(),
                _ => None,
            }
        }
        let (Some(f), Some(t)) = (inner(from), inner(to)) else { return J::Null };
        if let ty::Dynamic(..) = t.kind() {
            if let ty::Dynamic(..) = f.kind() {
                return J::Null;
            }
            if f.has_param() || t.has_param() || !self.mono {
                let a = self.ty(f);
                let b = self.ty(t);
                return J::Arr(vec![J::i(a), J::i(b)]);
            }
            return self.vtable(f, t);
        }
        J::Null
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let a = |v: Vec<J>| J::Arr(v);
        match r {
            Rvalue::Use(o, _) => a(vec![J::s("use"), self.operand(body, o)]),
            Rvalue::Repeat(o, n) => a(vec![
                J::s("repeat"),
                self.operand(body, o),
                n.try_to_target_usize(self.tcx).map(|n| J::UInt(n as u128)).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, k, p) => a(vec![
                J::s("ref"),
                J::Bool(matches!(k, BorrowKind::Mut { .. })),
                self.place(body, p),
            ]),
            Rvalue::RawPtr(_, p) => a(vec![J::s("rawptr"), self.place(body, p)]),
            Rvalue::Reborrow(_, _, p) => a(vec![J::s("use"), J::Arr(vec![J::s("c"), self.place(body, p)])]),
            Rvalue::ThreadLocalRef(d) => a(vec![J::s("tls"), J::s(self.fname(*d))]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let ti = self.ty(*t);
                let fi = self.ty(from);
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("{:?}", c),
                    k => format!("{:?}", k),
                };
                let mut extra = J::Null;
                if ks.starts_with("Unsize") {
                    extra = self.unsize_vtable(from, *t);
                } else if ks.starts_with("ReifyFnPointer") {
                    if let ty::FnDef(d, args) = from.kind() {
                        if let Some(args) = args.no_bound_vars() {
                            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, *d, args) {
                                extra = J::i(self.inst(i));
                            }
                        }
                    }
                } else if ks.starts_with("ClosureFnPointer") {
                    if let ty::Closure(d, args) = from.kind() {
                        let i = Instance::resolve_closure(self.tcx, *d, args, ty::ClosureKind::FnOnce);
                        extra = J::i(self.inst(i));
                    }
                }
                a(vec![J::s("cast"), J::s(ks), self.operand(body, o), J::i(fi), J::i(ti), extra])
            }
            Rvalue::BinaryOp(op, x) => a(vec![
                J::s("bin"),
                J::s(format!("{:?}", op)),
                self.operand(body, &x.0),
                self.operand(body, &x.1),
            ]),
            Rvalue::UnaryOp(op, x) => a(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(body, x)]),
            Rvalue::Discriminant(p) => a(vec![J::s("disc"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                match &**k {
                    AggregateKind::Array(t) => {
                        let ti = self.ty(*t);
                        a(vec![J::s("arr"), J::i(ti), J::Arr(v)])
                    }
                    AggregateKind::Tuple => a(vec![J::s("tup"), J::Arr(v)]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let t = Ty::new_adt(self.tcx, def, args);
                        let tf = self.transp_field(def, args);
                        let ti = self.ty(t);
                        a(vec![
                            J::s("adt"),
                            J::i(ti),
                            J::i(vi.as_usize()),
                            J::Arr(v),
                            tf.map(J::i).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ti = self.ty(t);
                        a(vec![J::s("closure"), J::i(ti), J::Arr(v)])
                    }
                    AggregateKind::RawPtr(..) => a(vec![J::s("mkptr"), J::Arr(v)]),
                    _ => a(vec![J::s("other"), J::s(format!("{:?}", k))]),
                }
            }
            Rvalue::CopyForDeref(p) => a(vec![J::s("use"), J::Arr(vec![J::s("c"), self.place(body, p)])]),
            o => a(vec![J::s("other"), J::s(format!("{:?}", o))]),
        }
    }

    fn callee(&mut self, body: &Body<'tcx>, f: &Operand<'tcx>) -> J {
        let t = f.ty(&body.local_decls, self.tcx);
        if let ty::FnDef(d, args) = t.kind() {
            let Some(args) = args.no_bound_vars() else { return J::s("?binder") };
            let r = Instance::try_resolve(self.tcx, self.env, *d, args);
            if let Ok(Some(i)) = r {
                if !(matches!(self.tcx.def_kind(*d), DefKind::Ctor(..)) && !self.mono) {
                    let ix = self.inst(i);
                    return J::Obj(vec![("i", J::i(ix)), ("via", J::s(self.fname(*d)))]);
                }
            }
            let targs: Vec<J> = args.types().map(|t| J::i(self.ty(t))).collect();
            return J::Obj(vec![("trait", J::s(self.fname(*d))), ("args", J::Arr(targs)), ("astr", J::s(self.args_str(args)))]);
        }
        J::Obj(vec![("dyn", self.operand(body, f))])
    }

    fn body(&mut self, body: &Body<'tcx>) -> J {
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(J::i(self.ty(l.ty)));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(J::Arr(vec![J::i(p.local.as_usize()), J::s(v.name.as_str())]));
                }
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(body, &x.0);
                        let r = self.rvalue(body, &x.1);
                        st.push(J::Arr(vec![J::s("="), p, r, self.span(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::Arr(vec![J::s("setd"), p, J::i(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::Arr(vec![J::s("dead"), J::i(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::Arr(vec![J::s("intr"), J::s(format!("{:?}", i))]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![J::s("goto"), J::i(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(body, discr);
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let signed = matches!(dt.kind(), ty::Int(_));
                    let dti = self.ty(dt);
                    let mut ts = vec![];
                    for (v, t) in targets.iter() {
                        let vj = if signed {
                            let sz = self.layout(dt).map(|l| l.size.bits()).unwrap_or(64);
                            let sh = 128 - sz as u32;
                            J::Int(((v << sh) as i128) >> sh)
                        } else {
                            J::UInt(v)
                        };
                        ts.push(J::Arr(vec![vj, J::i(t.as_usize())]));
                    }
                    J::Arr(vec![J::s("switch"), d, J::Arr(ts), J::i(targets.otherwise().as_usize()), J::i(dti)])
                }
                TerminatorKind::Return => J::Arr(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::Arr(vec![J::s("unreach")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(body, place);
                    let dt = place.ty(&body.local_decls, self.tcx).ty;
                    let ti = self.ty(dt);
                    J::Arr(vec![J::s("drop"), p, J::i(target.as_usize()), J::i(ti)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.callee(body, func);
                    let v: Vec<J> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                    let d = self.place(body, destination);
                    J::Arr(vec![
                        J::s("call"),
                        f,
                        J::Arr(v),
                        d,
                        target.map(|t| J::i(t.as_usize())).unwrap_or(J::Null),
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(body, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    };
                    J::Arr(vec![J::s("assert"), c, J::Bool(*expected), J::i(target.as_usize()), J::s(m)])
                }
                TerminatorKind::UnwindResume => J::Arr(vec![J::s("resume")]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::Arr(vec![J::s("goto"), J::i(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::Arr(vec![J::s("goto"), J::i(real_target.as_usize())])
                }
                o => J::Arr(vec![J::s("other"), J::s(format!("{:?}", o))]),
            };
            let mut bj = vec![J::Arr(st), tj, sp];
            if b.is_cleanup {
                bj.push(J::Bool(true));
            }
            blocks.push(J::Arr(bj));
        }
        J::Obj(vec![
            ("argc", J::i(body.arg_count)),
            ("spread", body.spread_arg.map(|l| J::i(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
            ("span", self.span(body.span)),
        ])
    }

    fn stopped(&self, n: &str) -> bool {
        self.stop.contains(n) || self.stop_prefix.iter().any(|p| n.starts_with(p))
    }

    fn inst_json(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = i.def_id();
        let name = self.fname(d);
        let mut o = vec![
            ("name", J::s(name.clone())),
            ("astr", J::s(self.args_str(i.args))),
            ("span", self.span(tcx.def_span(d))),
            ("krate", J::s(tcx.crate_name(d.krate).as_str())),
        ];
        let targs: Vec<J> = i.args.types().map(|t| J::i(self.ty(t))).collect();
        o.push(("targs", J::Arr(targs)));
        let cargs: Vec<J> = i
            .args
            .consts()
            .map(|c| c.try_to_target_usize(tcx).map(|n| J::UInt(n as u128)).unwrap_or(J::Null))
            .collect();
        o.push(("cargs", J::Arr(cargs)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(cname(tcx, tr))));
        } else if let Some(im) = tcx.trait_impl_of_assoc(d) {
            o.push(("trait", J::s(cname(tcx, tcx.impl_trait_ref(im).skip_binder().def_id))));
            o.push(("meth", J::s(tcx.item_name(d).as_str())));
        }
        if tcx.def_kind(d) == DefKind::AssocFn || tcx.def_kind(d) == DefKind::Fn {
            let vis = tcx.visibility(d);
            o.push(("pub", J::Bool(vis.is_public())));
        }
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(_, n) => {
                o.push(("vidx", J::i(n)));
                "virtual"
            }
            InstanceKind::Shim(ShimKind::Reify(..)) => "reify",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptrshim",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue",
            InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
            InstanceKind::Shim(ShimKind::VTable(..)) => "vtableshim",
            _ => "other",
        };
        o.push(("kind", J::s(kind)));
        let has = match kind {
            "intrinsic" | "virtual" | "dropglue" | "other" => false,
            "item" => {
                !self.stopped(&name)
                    && !tcx.is_foreign_item(d)
                    && (matches!(tcx.def_kind(d), DefKind::Ctor(..)) || tcx.is_mir_available(d))
            }
            _ => true,
        };
        if self.stopped(&name) {
            o.push(("stop", J::Bool(true)));
        } else if has && (self.mono || d.is_local()) {
            let b = tcx.instance_mir(i.def);
            if self.mono {
                match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b.clone())) {
                    Ok(m) => {
                        let bj = self.body(&m);
                        o.push(("body", bj));
                    }
                    Err(_) => o.push(("nobody", J::s("normalize"))),
                }
            } else {
                let bj = self.body(&b.clone());
                o.push(("body", bj));
            }
        } else {
            o.push(("nobody", J::s(if has { "extern" } else { kind })));
        }
        J::Obj(o)
    }
}

struct CxL<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}
impl<'tcx> rustc_abi::HasDataLayout for CxL<'tcx> {
    fn data_layout(&self) -> &rustc_abi::TargetDataLayout {
        &self.tcx.data_layout
    }
}
impl<'tcx> ty::layout::HasTyCtxt<'tcx> for CxL<'tcx> {
    fn tcx(&self) -> TyCtxt<'tcx> {
        self.tcx
    }
}
impl<'tcx> HasTypingEnv<'tcx> for CxL<'tcx> {
    fn typing_env(&self) -> TypingEnv<'tcx> {
        self.env
    }
}

fn mask(s: Size) -> u128 {
    if s.bits() >= 128 {
        u128::MAX
    } else {
        (1u128 << s.bits()) - 1
    }
}

pub fn dump(tcx: TyCtxt<'_>, mono: bool, out: &str) {
    let mut stop = FxHashSet::default();
    let mut stop_prefix = vec![];
    if let Ok(p) = std::env::var("MIRFACTS_STOP") {
        if let Ok(s) = std::fs::read_to_string(p) {
            for l in s.lines() {
                if let Some(p) = l.strip_suffix('*') {
                    stop_prefix.push(p.to_string());
                } else if !l.is_empty() {
                    stop.insert(l.to_string());
                }
            }
        }
    }
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        tys: vec![],
        ty_ix: Default::default(),
        inst_ix: Default::default(),
        insts: vec![],
        vtabs: Default::default(),
        vtab_out: vec![],
        stop,
        stop_prefix,
        mono,
        redir: Default::default(),
        statics: vec![],
        static_seen: Default::default(),
    };
    if mono {
        let mut by: FxHashMap<String, DefId> = Default::default();
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn) {
                by.insert(cname(tcx, d), d);
            }
        }
        if let Ok(p) = std::env::var("MIRFACTS_REDIRECT") {
            for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
                if let Some((a, b)) = l.split_once(" => ") {
                    match by.get(b.trim()) {
                        Some(d) => {
                            cx.redir.insert(a.trim().to_string(), *d);
                        }
                        None => eprintln!("mirfacts: no model fn {b}"),
                    }
                }
            }
        }
    }
    let mut roots = vec![];
    let mut objs: Vec<J> = vec![];
    if mono {
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn) && !tcx.generics_of(d).requires_monomorphization(tcx) {
                let i = Instance::mono(tcx, d);
                let ix = cx.inst(i);
                roots.push(J::Arr(vec![J::s(cx.fname(d)), J::i(ix)]));
            }
        }
        let mut k = 0;
        while k < cx.insts.len() {
            let i = cx.insts[k];
            let j = cx.inst_json(i);
            objs.push(j);
            k += 1;
        }
    } else {
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
        let mut done: Vec<(DefId, J)> = vec![];
        for ld in keys {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            cx.env = TypingEnv::post_analysis(tcx, d);
            let b = tcx.instance_mir(InstanceKind::Item(d)).clone();
            let bj = cx.body(&b);
            let mut o = vec![
                ("name", J::s(cx.fname(d))),
                ("path", J::s(cname(tcx, d))),
                ("span", cx.span(tcx.def_span(d))),
                ("body", bj),
                ("closure", J::Bool(kind == DefKind::Closure)),
            ];
            if kind != DefKind::Closure {
                o.push(("pub", J::Bool(tcx.visibility(d).is_public())));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("sig", J::s(with_no_trimmed_paths!(format!("{}", sig)))));
                o.push(("unsafe", J::Bool(sig.safety().is_unsafe())));
            } else {
                o.push(("parent", J::s(cx.fname(tcx.parent(d)))));
            }
            if let Some(im) = tcx.trait_impl_of_assoc(d) {
                o.push(("trait", J::s(cname(tcx, tcx.impl_trait_ref(im).skip_binder().def_id))));
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                o.push(("self", J::s(with_no_trimmed_paths!(tcx.type_of(im).instantiate_identity().skip_norm_wip().to_string()))));
            }
            done.push((d, J::Obj(o)));
        }
        let mut fl = vec![];
        for (_, j) in done {
            fl.push(j);
        }
        roots = fl;
        // instances referenced as callees: names only
        let mut k = 0;
        while k < cx.insts.len() {
            let i = cx.insts[k];
            let d = i.def_id();
            let mut o = vec![("name", J::s(cx.fname(d))), ("astr", J::s(cx.args_str(i.args))), ("krate", J::s(tcx.crate_name(d.krate).as_str()))];
            let targs: Vec<J> = i.args.types().map(|t| J::i(cx.ty(t))).collect();
            o.push(("targs", J::Arr(targs)));
            objs.push(J::Obj(o));
            k += 1;
        }
    }
    // every static (and thread-local key) that the crate declares, reached or not
    let mut globals = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        let (kind, mutable) = match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => ("static", mutability.is_mut()),
            DefKind::Const { .. } | DefKind::AssocConst { .. } => ("const", false),
            _ => continue,
        };
        let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let env = TypingEnv::post_analysis(tcx, d);
        globals.push(J::Obj(vec![
            ("name", J::s(cname(tcx, d))),
            ("kind", J::s(kind)),
            ("mut", J::Bool(mutable)),
            ("freeze", J::Bool(ty.is_freeze(tcx, env))),
            ("ty", J::s(with_no_trimmed_paths!(ty.to_string()))),
            ("span", cx.span(tcx.def_span(d))),
        ]));
    }
    let j = J::Obj(vec![
        ("globals", J::Arr(globals)),
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).as_str())),
        ("roots", J::Arr(roots)),
        ("insts", J::Arr(objs)),
        ("types", J::Arr(cx.tys)),
        ("vtables", J::Arr(cx.vtab_out)),
        ("statics", J::Arr(cx.statics)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::create_dir_all(std::path::Path::new(out).parent().unwrap()).ok();
    std::fs::write(out, s).expect("write facts");
}

/// The body of every function as text that names items by their definition path, for comparison
/// between builds of one crate with different features.
pub fn text(tcx: TyCtxt<'_>, out: &str) {
    let mut fns = vec![];
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
    for ld in keys {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let b = tcx.instance_mir(InstanceKind::Item(d));
        let (name, txt) = rustc_middle::ty::print::with_no_visible_paths!(with_no_trimmed_paths!({
            let w = rustc_middle::mir::pretty::MirWriter::new(tcx);
            let mut v: Vec<u8> = vec![];
            w.write_mir_fn(b, &mut v).expect("write mir");
            (tcx.def_path_str(d), String::from_utf8_lossy(&v).into_owned())
        }));
        let sp = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).source_callsite().lo());
        fns.push(J::Obj(vec![
            ("name", J::s(name)),
            ("span", J::s(format!("{}:{}", sp.file.name.prefer_local_unconditionally(), sp.line))),
            (
                "public",
                J::Bool(
                    tcx.def_kind(d) != DefKind::Closure
                        && (tcx.trait_impl_of_assoc(d).is_some() || tcx.effective_visibilities(()).is_reachable(ld)),
                ),
            ),
            ("text", J::s(txt)),
        ]));
    }
    let mut s = String::new();
    J::Arr(fns).write(&mut s);
    std::fs::create_dir_all(std::path::Path::new(out).parent().unwrap()).ok();
    std::fs::write(out, s).expect("write facts");
}
