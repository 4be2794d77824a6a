#!/usr/bin/env python3
"""Writes contracts/gen_<block>.vc: the contracts of the code that #[block] generates for the blocks of
genblocks/src/lib.rs (one unit per block). The contracts follow from the declaration alone."""
import os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SZ = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "u128": 16, "i128": 16,
      "bool": 1, "Kind": 1}
def blocks():
    src = open(os.path.join(V, "genblocks/src/lib.rs")).read()
    out = []
    for m in re.finditer(r"#\[block(\(no_crc\))?\]\s*#\[derive[^\]]*\]\s*pub struct (\w+) \{(.*?)\n\}", src, re.S):
        fs = []
        for f in re.finditer(r"pub (\w+): ([^,]+),", m.group(3)):
            n, t = f.groups()
            a = re.match(r"\[u8; (\d+)\]", t)
            fs.append((n, "arr" if a else t, int(a.group(1)) if a else SZ[t]))
        out.append((m.group(2), bool(m.group(1)), fs))
    return out

def piece(n, t):
    return {"arr": f"b.{n}@", "bool": f"one(bool_byte(b.{n}))", "Kind": f"one(kind_byte(b.{n}))"}.get(t, f"b.{n}.le()")
def plus(xs):
    return " + ".join(xs)

def gen(X, free, fs):
    S = X.upper()
    F = sum(f[2] for f in fs)          # bytes of the fields
    M = F + 4                          # with crc
    N = F + 8                          # with signature
    o, off = 0, []
    for f in fs:
        off.append(o); o += f[2]
    norm, is_, kinds = [], [], []
    for (n, t, z), a in zip(fs, off):
        if t == "bool":
            norm.append(f"one(bool_byte(s[{a}] != 0))"); is_.append(f"b.{n} == (s[{a}] != 0)")
        elif t == "Kind":
            norm.append(f"one(s[{a}])"); is_.append(f"b.{n} == kind_of(s[{a}])"); kinds.append(f"kind_ok(s[{a}])")
        elif t == "arr":
            norm.append(f"at(s, {a}, {z})"); is_.append(f"b.{n}@ == at(s, {a}, {z})")
        else:
            norm.append(f"at(s, {a}, {z})"); is_.append(f"b.{n} == {t}::of_le(at(s, {a}, {z}))")
    def val(t, z, a, b):
        return (f"s[{a}] != 0" if t == "bool" else f"kind_of(s[{a}])" if t == "Kind" else f"arr::<{z}>(at(s, {a}, {z}))" if t == "arr" else f"{t}::of_le(at(s, {a}, {z}))").replace("(s,", f"({b},").replace("(s[", f"({b}[").replace("s[", f"{b}[" if not b.startswith("s") else "s[")
    vals = [f"{n}: " + val(t, z, a, "s") for (n, t, z), a in zip(fs, off)]
    refs = [f"{n}: " + ("&" if t == "arr" else "") + val(t, z, a + (4 if t in ("bool", "Kind") else 0), "s.skip(4)" if t not in ("bool", "Kind") else "s") for (n, t, z), a in zip(fs, off)]
    lem = []
    for (n, t, z), a in zip(fs, off):
        if t == "bool" or t == "arr": continue
        if t == "Kind":
            continue
        lem.append((n, t, z, a))
    G = "@gen/exp.rs"
    bools = [a for (n, t, z), a in zip(fs, off) if t == "bool"]
    detect = "" if free else f"""/// the decoded fields' bytes are the bytes themselves, but for bools
proof fn lemma_{X}_norm_at(s: Seq<u8>)
    requires s.len() >= {F}
    ensures
        {X}_norm(s).len() == {F},
        forall|k: int| 0 <= k < {F}{"".join(f" && k != {a}" for a in bools)} ==> #[trigger] {X}_norm(s)[k] == s[k],
{"".join(f"        {X}_norm(s)[{a}] == bool_byte(s[{a}] != 0)," + chr(10) for a in bools)}{{
}}
/// C16: a block of which at most one byte was changed is refused, or still the same block (a bool's byte 1 and 2 are the same)
pub proof fn theorem_{X}_detects(b: {X}, c: {X}, s: Seq<u8>, t: Seq<u8>, i: int)
    requires
        {X}_accepts(s, false), {X}_accepts(t, false), {X}_is(b, s.skip(4)), {X}_is(c, t.skip(4)),
        forall|k: int| 0 <= k < {N} && k != i ==> s[k] == t[k],
    ensures b == c
{{
    hide({X}_fields); hide({X}_norm); hide({X}_is);
    let (x, y) = (s.skip(4), t.skip(4));
    lemma_{X}_norm_at(x); lemma_{X}_norm_at(y);
    lemma_{X}_norm(b, x); lemma_{X}_norm(c, y);
    let (f, g) = ({X}_norm(x), {X}_norm(y));
    le32(crc32_of(f)); le32(crc32_of(g));
    assert forall|k: int| 0 <= k < {F} && k != i - 4 implies f[k] == g[k] by {{
        assert(s[k + 4] == t[k + 4]);
        assert(x[k] == y[k]);
    }}
    if 4 <= i < {F + 4} {{
        assert(at(x, {F}, 4) =~= at(y, {F}, 4));
        lemma_crc_detects(f, g, i - 4);
    }} else {{
        assert(f =~= g);
    }}
    let e = Seq::<u8>::empty();
    lemma_{X}_cut(b, e); lemma_{X}_cut(c, e);
    lemma_{X}_unique(b, c, f + e);
}}
"""
    spec = f"""
pub open spec fn {X}_fields(b: {X}) -> Seq<u8> {{ {plus(piece(n, t) for n, t, _ in fs)} }}
pub open spec fn {X}_crc(f: Seq<u8>) -> Seq<u8> {{ {"seq![0u8, 0u8, 0u8, 0u8]" if free else "crc32_of(f).le()"} }}
/// the bytes of a block: signature, fields in declaration order, CRC of the fields
pub open spec fn {X}_enc(b: {X}) -> Seq<u8> {{ {S}@ + {X}_fields(b) + {X}_crc({X}_fields(b)) }}
/// b has the field values which the bytes s (behind the signature) stand for
pub open spec fn {X}_is(b: {X}, s: Seq<u8>) -> bool {{
{chr(10).join("    &&& " + x for x in is_)}
}}
/// every enum byte stands for a value
pub open spec fn {X}_kinds(s: Seq<u8>) -> bool {{ {" && ".join(kinds) or "true"} }}
/// the bytes of the decoded fields
pub open spec fn {X}_norm(s: Seq<u8>) -> Seq<u8> {{ {plus(norm)} }}
/// the bytes behind the signature are a block's
pub open spec fn {X}_ok(s: Seq<u8>) -> bool {{
    s.len() >= {M} && {X}_kinds(s) && {X}_crc({X}_norm(s)) == at(s, {F}, 4)
}}
pub open spec fn {X}_sig_ok(s: Seq<u8>) -> bool {{ s.len() >= 4 && s.take(4) == {S}@ }}
pub open spec fn {X}_body(s: Seq<u8>, skip: bool) -> Seq<u8> {{ if skip {{ s }} else {{ s.skip(4) }} }}
/// s starts with a block
pub open spec fn {X}_accepts(s: Seq<u8>, skip: bool) -> bool {{ (skip || {X}_sig_ok(s)) && {X}_ok({X}_body(s, skip)) }}
pub open spec fn {X}_len(skip: bool) -> nat {{ if skip {{ {M} }} else {{ {N} }} }}
/// the error for a full-length string which is not accepted
pub open spec fn {X}_refused(s: Seq<u8>, skip: bool, e: Error) -> bool {{
    if !skip && !{X}_sig_ok(s) {{ e is SignatureDismatch }}
    else if !{X}_kinds({X}_body(s, skip)) {{ e is FailedConverting }}
    else {{ !{X}_ok({X}_body(s, skip)) && e is CrcDismatch }}
}}
pub open spec fn {X}_val(s: Seq<u8>) -> {X} {{ {X} {{ {", ".join(vals)} }} }}
pub open spec fn {X}_view(s: Seq<u8>) -> {X}Referred<'static> {{
    {X}Referred {{ __sig: &arr::<4>(s.take(4)), __crc: &arr::<4>(at(s.skip(4), {F}, 4)), {", ".join(refs)} }}
}}
pub open spec fn {X}_own(r: {X}Referred) -> {X} {{ {X} {{ {", ".join(f"{n}: *r.{n}" if t == "arr" else f"{n}: r.{n}" for n, t, _ in fs)} }} }}
"""
    def le_name(t): return {"u8": "8", "u16": "16", "u32": "32", "u64": "64", "u128": "128"}.get(t, "_" + t)
    cut = "\n".join(f"    assert(at({X}_fields(b) + x, {a}, {z}) =~= {piece(n, t)});" if t not in ("bool", "Kind") else
                    f"    assert(({X}_fields(b) + x)[{a}] == {piece(n, t)}[0]);" for (n, t, z), a in zip(fs, off))
    lem1 = "\n".join(f"    le{le_name(t)}(b.{n});" for n, t, z, a in lem)
    lem2 = "\n".join(f"    el{le_name(t)}(at(s, {a}, {z}));" for n, t, z, a in lem)
    arrs = "\n".join(f"    arr_bytes::<{z}>(at(s, {a}, {z}));" for (n, t, z), a in zip(fs, off) if t == "arr")
    same = "\n".join(f"    assert(b.{n} == c.{n}) by {{ array_ext(b.{n}, c.{n}); }}" for n, t, z in fs if t == "arr")
    spec += f"""
/// `transmute` to another lifetime
#[verifier::external_body]
pub fn v_longer_{X}<'a, 'b>(x: {X}Referred<'b>) -> (r: {X}Referred<'a>) ensures r == x {{ unimplemented!() }}
pub mod {X}_lemmas {{
use super::*;
broadcast use kinds::all;
pub proof fn lemma_{X}_cut(b: {X}, x: Seq<u8>)
    ensures
        {X}_fields(b).len() == {F},
        {X}_is(b, {X}_fields(b) + x),
        {X}_kinds({X}_fields(b) + x),
{{
{lem1}
    assert({X}_fields(b).len() == {F});
{cut}
}}
/// decoding and encoding again gives the decoded fields' bytes
pub proof fn lemma_{X}_norm(b: {X}, s: Seq<u8>)
    requires s.len() >= {F}, {X}_is(b, s), {X}_kinds(s)
    ensures {X}_fields(b) == {X}_norm(s)
{{
{lem2}
}}
pub proof fn lemma_{X}_norm_all(s: Seq<u8>)
    requires s.len() >= {F}, {X}_kinds(s)
    ensures forall|b: {X}| {X}_is(b, s) ==> #[trigger] {X}_fields(b) == {X}_norm(s)
{{
    assert forall|b: {X}| {X}_is(b, s) implies #[trigger] {X}_fields(b) == {X}_norm(s) by {{ lemma_{X}_norm(b, s); }}
}}
/// the bytes determine the block
pub proof fn lemma_{X}_unique(b: {X}, c: {X}, s: Seq<u8>)
    requires {X}_is(b, s), {X}_is(c, s)
    ensures b == c
{{
{same}
}}
/// ... and there is one
pub proof fn lemma_{X}_val(s: Seq<u8>)
    requires s.len() >= {F}
    ensures
        {X}_is({X}_val(s), s),
        forall|b: {X}| #[trigger] {X}_is(b, s) ==> b == {X}_val(s),
{{
{arrs}
    assert forall|b: {X}| #[trigger] {X}_is(b, s) implies b == {X}_val(s) by {{ lemma_{X}_unique(b, {X}_val(s), s); }}
}}
/// C07: whatever is read from the bytes of b is b, with and without the signature, whatever follows
pub proof fn lemma_{X}_round_trip(b: {X}, t: Seq<u8>, c: {X})
    ensures
        {X}_enc(b).len() == {N},
        {X}_accepts({X}_enc(b) + t, false),
        {X}_accepts({X}_enc(b).skip(4) + t, true),
        {X}_is(c, {X}_body({X}_enc(b) + t, false)) ==> b == c,
        {X}_is(c, {X}_body({X}_enc(b).skip(4) + t, true)) ==> b == c,
{{
    hide({X}_fields); hide({X}_norm); hide({X}_is); hide({X}_kinds);
    let f = {X}_fields(b);
    let k = {X}_crc(f);
    {"" if free else "le32(crc32_of(f));"}
    lemma_{X}_cut(b, k + t);
    assert({X}_enc(b).len() == {N});
    let s = {X}_enc(b) + t;
    assert(s.take(4) =~= {S}@);
    assert(s.skip(4) =~= f + (k + t));
    assert({X}_enc(b).skip(4) + t =~= f + (k + t));
    lemma_{X}_norm(b, f + (k + t));
    assert(at(f + (k + t), {F}, 4) =~= k);
    if {X}_is(c, f + (k + t)) {{ lemma_{X}_unique(b, c, f + (k + t)); }}
}}
{detect}}}
pub use {X}_lemmas::*;
"""
    rw = f"""{RW}:rewrite ?{X}::read($..a) =>> {X}::read_block($..a)
"""
    def fn(key, body, header=f"impl {X}", rws=""):
        rws = rws.replace("@X@", X)
        return f"//@ fn {G} {key}\n:props C07 C16{' C04' if key.startswith('TryReadFrom@') else ''}\n" + (f":header {header}\n" if header else "") + rws + body.strip("\n") + "\n\n"
    v = "//@ include gen_head.vc\n" if False else ""
    v = f"""//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {{ax::core, axe::from_io}};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ stub slices.vc * *
//@ include gen_common.rs
//@ include crc_laws.rs
//@ item {G} const {S}
:rewrite const {S} =>> pub const {S}
//@ item {G} struct {X}
//@ item {G} struct {X}Referred
//@ include gen_{X.lower()}_spec.rs

"""
    open(os.path.join(V, "contracts", f"gen_{X.lower()}_spec.rs"), "w").write(spec.lstrip("\n"))
    v += fn(f"StaticSize@{X}::ssize", f":ensures\n    r == {N},")
    v += fn(f"SignatureU32@{X}Referred::sig", f":ensures\n    r@ == {S}@,", f"impl<'a> {X}Referred<'a>")
    v += fn(f"From@{X}::from", f":ensures\n    r == {X}_own(block),", f"impl {X}", f":sig_rewrite\n    {X}Referred<'a> =>> {X}Referred<'_>\n")
    v += fn(f"CrcU32@{X}::crc", f":ensures\n    r@ == {X}_crc({X}_fields(*self)),", rws=RW)
    v += fn(f"CrcU32@{X}Referred::crc", f":ensures\n    r@ == {X}_crc({X}_fields({X}_own(*self))),", f"impl<'a> {X}Referred<'a>", RW)
    norm = f"    hide({X}_norm); hide({X}_fields);\n    proof {{ let s = {X}_body(old(buf).rest(), skip_sig); if s.len() >= {F} && {X}_kinds(s) {{ lemma_{X}_norm_all(s); }} }}"
    v += f"//@ raw\npub mod {X}_stream {{\nuse super::*;\nbroadcast use {{ax::skip_skip, ax::skip_take, ax::array_eq, axe::from_io}};\n\n"
    v += fn(f"ReadBlockFrom@{X}::read", f"""
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok ==> {X}_accepts(old(buf).rest(), skip_sig) && {X}_is(r->Ok_0, {X}_body(old(buf).rest(), skip_sig)),
    r is Ok ==> sio::advanced(old(buf), final(buf), {X}_len(skip_sig)),
    r is Err && !old(buf).faulty() ==> old(buf).rest().len() < {X}_len(skip_sig) || {X}_refused(old(buf).rest(), skip_sig, r->Err_0),
    r is Err && skip_sig ==> !(r->Err_0 is SignatureDismatch),
    r is Ok ==> final(buf).filled() + {X}_len(skip_sig) >= old(buf).filled(),
    r is Err && !skip_sig && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 4),
    r is Err && !old(buf).faulty() && !skip_sig && old(buf).rest().len() >= 4 && !{X}_sig_ok(old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
:start
{norm}
""", rws=rw)
    norms = f"    hide({X}_norm); hide({X}_fields);\n    proof {{ let s = {X}_body(buf@, skip_sig); if s.len() >= {F} && {X}_kinds(s) {{ lemma_{X}_norm_all(s); }} }}"
    v += f"//@ raw\n}}\npub mod {X}_slice {{\nuse super::*;\nbroadcast use {{ax::sub_sub, ax::sub_all, ax::array_eq, axe::from_io, arr_of}};\n\n"
    v += fn(f"ReadBlockFromSlice@{X}Referred::read_from_slice", f"""
:ensures
    r is Ok <==> {X}_accepts(buf@, skip_sig),
    r is Ok ==> {X}_is({X}_own(r->Ok_0), {X}_body(buf@, skip_sig)),
    r is Ok && !skip_sig ==> r->Ok_0 == {X}_view(buf@),
    r is Err && !skip_sig && buf@.len() < 4 ==> r->Err_0 == Error::NotEnoughtSignatureData(buf@.len() as usize, 4),
    r is Err && (skip_sig || {X}_sig_ok(buf@)) && buf@.len() < {X}_len(skip_sig) ==> r->Err_0 == Error::NotEnoughData({X}_len(skip_sig) as usize),
    r is Err && (skip_sig || buf@.len() >= 4) ==> (skip_sig || {X}_sig_ok(buf@)) && buf@.len() < {X}_len(skip_sig) || {X}_refused(buf@, skip_sig, r->Err_0),
:start
{norms}
""", f"impl<'a> {X}Referred<'a>", rw)
    v += f"//@ raw\n}}\npub mod {X}_try {{\nuse super::*;\nbroadcast use {{ax::reading, ax::array_eq, axe::from_io}};\n\n"
    v += fn(f"TryReadFrom@{X}::try_read", f"""
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok && r->Ok_0 is Success ==> {X}_accepts(old(buf).rest(), false) && {X}_is(r->Ok_0->Success_0, {X}_body(old(buf).rest(), false)),
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(buf), final(buf), {N}),   //# C04 C07
    r is Ok && r->Ok_0 is NotEnoughData ==> r->Ok_0->NotEnoughData_0 == (if old(buf).rest().len() < 4 {{ 4 - old(buf).rest().len() }} else {{ {N} - old(buf).rest().len() }}) && r->Ok_0->NotEnoughData_0 > 0,   //# C04
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(buf), final(buf), 0),   //# C04
    r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 0) && (old(buf).rest().len() >= 4 && !{X}_sig_ok(old(buf).rest())),
    r is Ok && r->Ok_0 is NotEnoughData ==> old(buf).rest().len() < 4 || {X}_sig_ok(old(buf).rest()),
    r is Err && !old(buf).faulty() ==> {X}_refused(old(buf).rest(), false, r->Err_0),
    r is Err && !old(buf).faulty() ==> sio::advanced(old(buf), final(buf), 0),   //# C04
    old(buf).rest().len() >= {N} && !old(buf).faulty() && {X}_accepts(old(buf).rest(), false) ==> r is Ok && r->Ok_0 is Success,
""", rws=rw)
    v += f"//@ raw\n}}\npub mod {X}_buffered {{\nuse super::*;\nbroadcast use {{ax::reading, ax::sub_sub, ax::array_eq, axe::from_io}};\n\n"
    v += fn(f"TryReadFromBuffered@{X}::try_read", f"""
:ensures
    sio::same_source(old(reader), final(reader)),
    r is Ok && r->Ok_0 is Success ==> {X}_accepts(old(reader).rest(), false) && {X}_is(r->Ok_0->Success_0, {X}_body(old(reader).rest(), false)),
    r is Ok && r->Ok_0 is Success ==> sio::advanced(old(reader), final(reader), {N}),
    r is Ok && r->Ok_0 is NotEnoughData ==> r->Ok_0->NotEnoughData_0 == 4 - final(reader).filled() && final(reader).filled() < 4,
    r is Ok && r->Ok_0 is NotEnoughData ==> sio::advanced(old(reader), final(reader), 0),
    r is Err && !old(reader).faulty() ==> old(reader).rest().len() < {N} || {X}_refused(old(reader).rest(), false, r->Err_0),
    r is Ok && r->Ok_0 is Success ==> final(reader).filled() + {N} >= old(reader).filled(),
    r is Ok && r->Ok_0 is NotEnoughData ==> old(reader).filled() < 4,
    r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(reader), final(reader), 0) && !{X}_sig_ok(old(reader).rest()),
    r is Err && r->Err_0 is SignatureDismatch ==> final(reader).filled() >= old(reader).filled(),
    r is Err && !old(reader).faulty() && !{X}_sig_ok(old(reader).rest()) ==> r->Err_0 is SignatureDismatch && sio::advanced(old(reader), final(reader), 0),
""", rws=rw)
    tail = f"    proof {{ lemma_{X}_cut(*self, Seq::empty()); }}"
    v += "//@ raw\n}\n"
    v += fn(f"WriteTo@{X}::write", f"""
:ensures
    r is Ok ==> r->Ok_0 <= {N} && sio::wrote(old(writer), final(writer), {X}_enc(*self).take(r->Ok_0 as int)),
    r is Err ==> old(writer).faulty() && sio::wrote(old(writer), final(writer), Seq::empty()),
""", rws=rw)
    v += fn(f"WriteTo@{X}::write_all", f"""
:ensures
    r is Ok ==> sio::wrote(old(writer), final(writer), {X}_enc(*self)),
    r is Err ==> old(writer).faulty() && sio::wrote_part(old(writer), final(writer), {X}_enc(*self)),
""", rws=rw)
    v += fn(f"WriteVectoredTo@{X}::slices", f"""
:ensures
    r is Ok && r->Ok_0.all() == {X}_enc(*self),
""", rws=rw)
    return v


def gen_enum(bs):
    G = "@gen/exp.rs"
    v = f"""//@ include prelude.rs
//@ include vecsink.rs
//@ raw
use sio::Stream as _;
broadcast use {{ax::core, axe::from_io}};
//@ item brec/src/error.rs enum Error
//@ include errors.rs
//@ item brec/src/traits/read/status.rs enum ReadStatus
//@ include iters.rs
//@ item brec/src/traits/write/slices.rs enum SliceSlot
//@ item brec/src/traits/write/slices.rs struct IoSlices
//@ include slices_spec.rs
//@ include gen_common.rs
//@ include blk_laws.rs
//@ include filt_laws.rs
//@ include crc_laws.rs
"""
    for X, free, fs in bs:
        S = X.upper()
        v += f"""//@ item {G} const {S}
:rewrite const {S} =>> pub const {S}
//@ item {G} struct {X}
//@ item {G} struct {X}Referred
//@ include gen_{X.lower()}_spec.rs
//@ stub gen_{X.lower()}.vc {G} *
"""
    v += f"//@ item {G} enum Block\n//@ item {G} enum BlockReferred\n//@ include gen_enum_spec.rs\n\n"
    names = [b[0] for b in bs]
    size = {X: sum(f[2] for f in fs) + 8 for X, _, fs in bs}
    F = {X: sum(f[2] for f in fs) for X, _, fs in bs}
    def chain(f, last):
        out = ""
        for X in names:
            out += f"    if {X}_sig_ok(s) {{ {f(X)} }} else\n"
        return out + f"    {{ {last} }}"
    spec = f"""// ---------------------------------------------------------------- the enum of all blocks
pub open spec fn block_enc(b: Block) -> Seq<u8> {{
    match b {{
{chr(10).join(f"        Block::{X}(x) => {X}_enc(x)," for X in names)}
    }}
}}
/// the block at the start of s: the type is the one whose signature s carries
pub open spec fn block_dec(s: Seq<u8>) -> Option<(Block, nat)> {{
{chain(lambda X: f"if {X}_ok(s.skip(4)) {{ Some((Block::{X}({X}_val(s.skip(4))), {size[X]}nat)) }} else {{ None }}", "None")}
}}
pub open spec fn view_dec(s: Seq<u8>) -> Option<(BlockReferred<'static>, nat)> {{
{chain(lambda X: f"if {X}_ok(s.skip(4)) {{ Some((BlockReferred::{X}({X}_view(s)), {size[X]}nat)) }} else {{ None }}", "None")}
}}
pub open spec fn view_own(r: BlockReferred) -> Block {{
    match r {{
{chr(10).join(f"        BlockReferred::{X}(x) => Block::{X}({X}_own(x))," for X in names)}
    }}
}}
/// no signature of a block type
pub open spec fn no_sig(s: Seq<u8>) -> bool {{ {" && ".join(f"!{X}_sig_ok(s)" for X in names)} }}
pub open spec fn block_need(s: Seq<u8>) -> nat {{
{chain(lambda X: f"{size[X]}nat", "4nat")}
}}
pub mod enum_lemmas {{
use super::*;
pub proof fn lemma_sigs()
    ensures
{chr(10).join(f"        {a.upper()}@ != {b.upper()}@," for i, a in enumerate(names) for b in names[i + 1:])}
{{
{chr(10).join(f"    assert({a.upper()}@[0] != {b.upper()}@[0] || {a.upper()}@[1] != {b.upper()}@[1] || {a.upper()}@[2] != {b.upper()}@[2] || {a.upper()}@[3] != {b.upper()}@[3]);" for i, a in enumerate(names) for b in names[i + 1:])}
}}
/// a string carries the signature of one type only
pub proof fn lemma_one_sig(s: Seq<u8>)
    ensures
{chr(10).join(f"        {a}_sig_ok(s) ==> !{b}_sig_ok(s)," for a in names for b in names if a != b)}
{{ lemma_sigs(); }}
pub proof fn lemma_vals(s: Seq<u8>)
    ensures
{chr(10).join(f"        s.len() >= {F[X] + 4} ==> {X}_is({X}_val(s.skip(4)), s.skip(4)) && forall|b: {X}| #[trigger] {X}_is(b, s.skip(4)) ==> b == {X}_val(s.skip(4))," for X in names)}
{chr(10).join(f"        {X}_sig_ok(s) && {X}_ok(s.skip(4)) ==> {X}_kinds(s.skip(4)) && s.len() >= {size[X]}," for X in names)}
{{
{chr(10).join(f"    if s.len() >= {F[X] + 4} {{ lemma_{X}_val(s.skip(4)); }}" for X in names)}

}}
"""
    for X in names:
        spec += f"""pub proof fn lemma_one_{X}(s: Seq<u8>)
    requires {X}_sig_ok(s), {X}_ok(s.skip(4))
    ensures {X}_own({X}_view(s)) == {X}_val(s.skip(4)), s.len() >= {size[X]}
{{ }}
pub proof fn lemma_round_{X}(x: {X}, t: Seq<u8>)
    ensures
        {X}_enc(x).len() == {size[X]},
        {X}_sig_ok({X}_enc(x) + t), {X}_ok(({X}_enc(x) + t).skip(4)),
        {X}_val(({X}_enc(x) + t).skip(4)) == x,
{{
    let s = {X}_enc(x) + t;
    lemma_{X}_round_trip(x, t, {X}_val(s.skip(4)));
    lemma_{X}_val(s.skip(4));
}}
"""
    hide = " ".join(f"hide({X}_{k});" for X in names for k in ("ok", "is", "val", "view", "enc", "own"))
    spec += f"""
pub proof fn lemma_block_round(b: Block, t: Seq<u8>)
    ensures block_dec(block_enc(b) + t) == Some((b, block_enc(b).len()))
{{
    {hide.replace("hide", "hide")}
    lemma_one_sig(block_enc(b) + t);
    match b {{
{chr(10).join(f"        Block::{X}(x) => {{ lemma_round_{X}(x, t); }}" for X in names)}
    }}
}}
pub proof fn lemma_block_len(b: Block)
    ensures
        match b {{
{chr(10).join(f"            Block::{X}(x) => block_enc(b).len() == {size[X]}," for X in names)}
        }}
{{
    match b {{
{chr(10).join(f"        Block::{X}(x) => {{ lemma_round_{X}(x, Seq::empty()); }}" for X in names)}
    }}
}}
pub proof fn lemma_block_size(s: Seq<u8>)
    ensures block_dec(s) is Some ==> 0 < (block_dec(s)->0).1 <= s.len() && (block_dec(s)->0).1 == block_enc((block_dec(s)->0).0).len()
{{
    if block_dec(s) is Some {{
        lemma_one_sig(s);
        let b = (block_dec(s)->0).0;
        match b {{
{chr(10).join(f"            Block::{X}(x) => {{ lemma_one_{X}(s); lemma_round_{X}(x, Seq::empty()); }}" for X in names)}
        }}
    }}
}}
pub proof fn lemma_block_view(s: Seq<u8>)
    ensures
        view_dec(s) is Some <==> block_dec(s) is Some,
        view_dec(s) is Some ==> view_own((view_dec(s)->0).0) == (block_dec(s)->0).0 && (view_dec(s)->0).1 == (block_dec(s)->0).1,
{{
{chr(10).join(f"    if {X}_sig_ok(s) && {X}_ok(s.skip(4)) {{ lemma_one_{X}(s); }}" for X in names)}
}}
}}
pub use enum_lemmas::*;
"""
    # std::io::Chain of the signature read before and the source: assumed (the source's bytes behind the signature's)
    for X in names:
        N = size[X]
        spec += f"""
/// {X}::read on `Read::chain(&sig[..], buf)`: its contract, for the bytes of the chain
#[verifier::external_body]
pub fn v_chained_{X}<T: sio::Read>(sig: &[u8; 4], buf: &mut T) -> (r: Result<{X}, Error>)
    ensures
        sio::same_source(old(buf), final(buf)),
        r is Ok ==> {X}_accepts(sig@ + old(buf).rest(), false) && {X}_is(r->Ok_0, (sig@ + old(buf).rest()).skip(4)),
        r is Ok ==> sio::advanced(old(buf), final(buf), {N - 4}),
        r is Err && r->Err_0 is SignatureDismatch ==> sio::advanced(old(buf), final(buf), 0),
        r is Err && !old(buf).faulty() ==> old(buf).rest().len() < {N - 4} || {X}_refused(sig@ + old(buf).rest(), false, r->Err_0),
        r is Err && !old(buf).faulty() && !{X}_sig_ok(sig@ + old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
{{ unimplemented!() }}
"""
    open(os.path.join(V, "contracts", "gen_enum_spec.rs"), "w").write(spec)
    chained = "\n".join(f":rewrite ?<{X} as ReadBlockFrom>::read_block(&mut sio::Read::chain(&sig[..], &mut *buf), false) =>> v_chained_{X}(&sig, &mut *buf)" for X in names)
    qs = ":rewrite ?<$X as $T>::$m($..a) =>> $X::$m($..a)"
    hide1 = "    " + " ".join(f"hide({X}_{k});" for X in names for k in ("ok", "is", "val"))
    def lem(s): return f"{hide1}\n    proof {{ lemma_one_sig({s}); lemma_vals({s}); }}\n"
    H = ":header impl BlockDef for Block\n"
    v += f"""//@ raw
pub mod enum_def {{
use super::*;
broadcast use {{ax::reading, ax::part_none, axe::from_io}};

//@ fn {G} Size@Block::size
:props C07 C16
{H}:impl_extra
    open spec fn bytes(&self) -> Seq<u8> {{ block_enc(*self) }}
    open spec fn bdec(s: Seq<u8>) -> Option<(Self, nat)> {{ block_dec(s) }}
    proof fn law_size(s: Seq<u8>) {{ lemma_block_size(s); }}
    proof fn law_round(&self, t: Seq<u8>) {{ lemma_block_round(*self, t); }}
:start
    proof {{ lemma_block_len(*self); }}

//@ fn {G} WriteTo@Block::write
:props C07 C16
{H}:start
    proof {{ assert(block_enc(*self).take(0) =~= Seq::<u8>::empty()); }}

//@ fn {G} WriteTo@Block::write_all
:props C07 C16
{H}
//@ fn {G} WriteVectoredTo@Block::slices
:props C07 C16
{H}
//@ fn {G} TryReadFrom@Block::try_read
:props C07 C16 C04
{H}{qs}
:ensures
    r is Err && !old(buf).faulty() && no_sig(old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
    r is Ok && r->Ok_0 is NotEnoughData ==> r->Ok_0->NotEnoughData_0 == block_need(old(buf).rest()) - old(buf).rest().len(),   //# C04
:start
{lem("old(buf).rest()")}
//@ fn {G} TryReadFromBuffered@Block::try_read
:props C07 C16
{H}{qs}
:ensures
    r is Err && !old(buf).faulty() && no_sig(old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
:start
{lem("old(buf).rest()")}
//@ fn {G} ReadFrom@Block::read
:props C07 C16
:header impl Block
{chained}
:ensures
    sio::same_source(old(buf), final(buf)),
    r is Ok ==> block_dec(old(buf).rest()) is Some && (block_dec(old(buf).rest())->0).0 == r->Ok_0,
    r is Ok ==> sio::advanced(old(buf), final(buf), (block_dec(old(buf).rest())->0).1),
    r is Err && !old(buf).faulty() ==> block_dec(old(buf).rest()) is None,
    r is Err && !old(buf).faulty() && old(buf).rest().len() >= 4 && no_sig(old(buf).rest()) ==> r->Err_0 is SignatureDismatch,
:start
{lem("old(buf).rest()")}    proof {{ if old(buf).rest().len() >= 4 {{ assert(old(buf).rest().take(4) + old(buf).rest().skip(4) == old(buf).rest()); }} }}

//@ fn {G} From@Block::from
:props C16
:header impl Block
:rewrite ?Block::$X(blk.into()) =>> Block::$X($X::from(blk))
:ensures
    r == view_own(blk),

//@ fn {G} Size@BlockReferred::size
:props C16
:header impl<'x> BlockReferredDef<Block> for BlockReferred<'x>
:impl_extra
    open spec fn rdec(s: Seq<u8>) -> Option<(Self, nat)> {{ view_dec(s) }}
    open spec fn own(self) -> Block {{ view_own(self) }}
    proof fn law_view(s: Seq<u8>) {{ lemma_block_view(s); }}
:start
    proof {{ lemma_block_len(view_own(*self)); }}

//@ fn {G} ReadBlockFromSlice@BlockReferred::read_from_slice
:props C07 C16
:header impl<'x> BlockReferredDef<Block> for BlockReferred<'x>
:sig_rewrite
    'b =>> 'a
:ensures
    r is Err && buf@.len() >= 4 && no_sig(buf@) ==> r->Err_0 is SignatureDismatch,
    r is Err && buf@.len() < 4 ==> r->Err_0 is NotEnoughtSignatureData,
:start
    {" ".join(f"hide({X}_{k});" for X in names for k in ("ok", "is", "view"))}
    proof {{ lemma_one_sig(buf@); }}

//@ raw
}}
"""
    return v

RW = """:rewrite ?unsafe { let dst = $b.as_mut_ptr().add($o); let src = $..e.as_ptr(); std::ptr::copy_nonoverlapping(src, dst, $n); } =>> v_copy(&mut $b, $o, &$..e, $n);
:rewrite ?$b[$..o .. $..m].copy_from_slice($..e) =>> v_put_at(&mut $b, $..o, $..m, $..e)
:rewrite ?[(&self.$f).into()] =>> [self.$f.v_u8()]
:rewrite ?[self.$f as u8] =>> [v_flag(self.$f)]
:rewrite ?$b[..$n] != $X =>> !v_same(&$b[..$n], &$X)
:rewrite ?<&[u8; $n]>::try_from($..e) =>> v_aref::<$n>($..e)
:rewrite ?Kind::try_from($..x).map_err(|$e| Error::FailedConverting("Kind".to_owned(), $f)) =>> v_kind($..x)
:rewrite ?unsafe { std::mem::transmute(block) } =>> v_longer(block)
:rewrite ?v_longer =>> v_longer_@X@
"""
if __name__ == "__main__":
    for X, free, fs in blocks():
        open(os.path.join(V, "contracts", f"gen_{X.lower()}.vc"), "w").write(gen(X, free, fs))
    open(os.path.join(V, "contracts", "gen_enum.vc"), "w").write(gen_enum(blocks()))
