#!/usr/bin/env python3
"""D08: families of generic (and same-named) definitions, each instantiation with a monomorphic twin of unique name.

A family is the text of a module defining S. `@D` stands for the definition's name with its parameters, `@[..]` for a
use of the type itself, `@R` for its rename attribute. The twin has the parameters substituted, a name no other type has,
and no rename attribute."""
import re, sys, os, itertools
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from genlib import *
N=8
ARGS={'u8':'uint8','String':'string','Leaf':'Leaf','other::Leaf':'Leaf','m::X':'X','n::X':'X','Vec<u8>':'Array_of_uint8','bool':'boolean','Vec<m::X>':'Array_of_X','Vec<n::X>':'Array_of_X'}
A1=['u8','String','Leaf','other::Leaf','m::X','n::X','Vec<m::X>','Vec<n::X>']
OBJ=['Leaf','other::Leaf','m::X','n::X']
A2=list(itertools.product(['u8','String','m::X','n::X'],repeat=2))
fams=[]   # (name, decl, params, text, insts, rename, const kinds)
def fam(name,decl,text,insts,rename=None,ident='S',transparent=False):
    params=[re.match(r"(?:const )?('?\w+)",d.strip()).group(1) for d in decl]
    insts=[i if isinstance(i,tuple) else (i,) for i in insts]
    fams.append((name,decl,params,text,insts,rename,ident,transparent))
J='JsonSchema'
T=['T']; TT=['T: Tr']; TJ=['T: JsonSchema']; TJT=['T: JsonSchema + Tr']; TU=['T','U']
TS=['T: JsonSchema + \'static']
D='#[derive(JsonSchema)] '
P='PhantomData<T>'

# where a parameter may stand in a type
for n,ty in {'t':'T','vec':'Vec<T>','opt':'Option<T>','boxopt':'Option<Box<T>>','tup':'(T, T)','arr':'[T; 2]','map':'BTreeMap<String, T>',
             'nested':'Vec<Option<Box<T>>>','res':'Result<T, String>','res2':'Result<u8, T>','bound':'std::ops::Bound<T>','range':'std::ops::Range<T>',
             'either':'either1::Either<T, bool>','small':'smallvec1::SmallVec<[T; 2]>','arrayvec':'arrayvec07::ArrayVec<T, 2>','paren':'((T))',
             'slice':"&'static [T]",'boxed_slice':'Box<[T]>'}.items():
    ds=[f"T: 'static"] if n=='slice' else T
    fam('field/'+n,ds,D+f'@R pub struct @D {{ a: {ty} }}',A1)
    fam('newtype/'+n,ds,D+f'@R pub struct @D({ty});',A1)
    fam('variant/'+n,ds,D+f'@R pub enum @D {{ A({ty}), B }}',A1[:6])
fam('tuplestruct',T,D+'pub struct @D(T, u8);',A1)
fam('refs',["'a",'T'],D+"pub struct @D { a: &'a T }",[("'static",a) for a in A1])
fam('refs2',["'a",'T'],D+"pub struct @D { a: &'a [Option<&'a T>] }",[("'static",a) for a in A1])
# enums
for rep,attr in {'ext':'','int':'#[serde(tag = "t")]','adj':'#[serde(tag = "t", content = "c")]','unt':'#[serde(untagged)]'}.items():
    fam('enum-new/'+rep,T,D+attr+' pub enum @D { A(T), B }',OBJ)
    fam('enum-named/'+rep,T,D+attr+' pub enum @D { A { x: T }, B }',A1)
    fam('enum-with/'+rep,TJ,D+attr+' #[schemars(bound = "T: JsonSchema")] pub enum @D { #[schemars(with = "F<T>")] A(PhantomData<T>), B }'.replace('#[schemars(bound = "T: JsonSchema")]',''),[a for a in A1]) if False else None
    if rep!='int':
        fam('enum-tuple/'+rep,T,D+attr+' pub enum @D { A(T, u8), B }',A1[:6])
    fam('enum-flat/'+rep,T,D+attr+' pub enum @D { A { #[serde(flatten)] x: T, k: u8 }, B }',OBJ)
    fam('variant-with/'+rep,TS,D+attr+' pub enum @D { #[schemars(with = "F<T>")] A(PhantomData<T>), B }',A1[:6])
    fam('variant-schema-with/'+rep,TS,D+attr+' pub enum @D { #[schemars(schema_with = "f::<T>")] A(PhantomData<T>), B }',A1[:6])
    fam('variant-extend/'+rep,TJT,D+attr+' pub enum @D { #[schemars(extend("x-k" = <T as Tr>::K))] A(PhantomData<T>), B }',A1[:6])
    fam('variant-skip/'+rep,T,D+attr+' pub enum @D { #[serde(skip)] A(T), B }',A1[:3])
    fam('variant-skip-de/'+rep,T,D+attr+' pub enum @D { #[serde(skip_deserializing)] A { x: T }, B }',A1[:6])
    fam('variant-skip-ser/'+rep,T,D+attr+' pub enum @D { #[serde(skip_serializing)] A { x: T }, B }',A1[:6])
fam('flatten',T,D+'pub struct @D { #[serde(flatten)] a: T, k: u8 }',OBJ)
fam('flatten-opt',T,D+'pub struct @D { #[serde(flatten)] a: Option<T>, k: u8 }',OBJ)
fam('deep',T,D+'pub struct @D { a: Mid<T> } '+D+'pub struct Mid<T> { b: Option<T> }',A1)
fam('deep2',T,D+'pub struct @D { a: Mid<Mid<T>> } '+D+'pub struct Mid<T> { b: Option<T> }',A1)
fam('deep3',T,D+'pub struct @D { a: mi::S<T>, b: mi::S<mi::S<T>>, c: mi::S<Vec<T>> } pub mod mi { use super::*; '+D+'pub struct S<T> { b: Option<T> } }',A1)
# skipped and phantom parameters
fam('phantom',T,D+'pub struct @D { a: u8, p: PhantomData<T> }',A1[:3])
fam('skip',T,D+'pub struct @D { a: u8, #[serde(skip)] p: T }',A1[:3])
fam('skip-de',['T: Default + serde::Serialize'],D+'pub struct @D { a: u8, #[serde(skip_deserializing)] p: T }',A1)
fam('skip-ser',T,D+'pub struct @D { a: u8, #[serde(skip_serializing)] p: T }',A1)
# attributes that mention the parameter
fam('with',TJ,D+'pub struct @D { #[schemars(with = "T")] a: PhantomData<T> }',A1)
fam('with-vec',TJ,D+'pub struct @D { #[schemars(with = "Vec<T>")] a: PhantomData<T> }',A1)
fam('with-newtype',TJ,D+'pub struct @D(#[schemars(with = "Vec<T>")] PhantomData<T>);',A1)
fam('schema-with',TJ,D+'pub struct @D { #[schemars(schema_with = "f::<T>")] a: T }',A1)
fam('schema-with-path',TJ,D+'pub struct @D { #[schemars(schema_with = "<Vec<T> as JsonSchema>::json_schema")] a: T }',A1) if False else None
fam('schema-with-phantom',TJ,D+'pub struct @D { #[schemars(schema_with = "f::<T>")] a: PhantomData<T> }',A1)
fam('schema-with-nested',TJ,D+'pub struct @D { #[schemars(schema_with = "f::<Vec<T>>")] a: u8, p: PhantomData<T> }',A1)
fam('schema-with-newtype',TJ,D+'pub struct @D(#[schemars(schema_with = "f::<T>")] T);',A1)
fam('schema-with-tuple',TJ,D+'pub struct @D(u8, #[schemars(schema_with = "f::<T>")] T);',A1)
fam('schema-with-variant-field',TJ,D+'pub enum @D { A { #[schemars(schema_with = "f::<T>")] x: T }, B(#[schemars(schema_with = "f::<T>")] T), C }',A1)
fam('cont-with',TS,D+'#[schemars(with = "F<T>")] pub struct @D { p: PhantomData<T> }',A1,transparent=True)
fam('cont-with-desc',TS,D+'#[schemars(with = "F<T>", description = "d")] pub struct @D { p: PhantomData<T> }',A1)
fam('cont-schema-with',TS,D+'#[schemars(schema_with = "f::<T>")] pub struct @D { p: PhantomData<T> }',A1)
fam('from',TS,D+'#[serde(from = "F<T>")] pub struct @D { p: PhantomData<T> }',A1)
fam('try_from',TS,D+'#[serde(try_from = "F<T>")] pub struct @D { p: PhantomData<T> }',A1)
fam('into',TS,D+'#[serde(into = "F<T>")] pub struct @D { p: PhantomData<T> }',A1)
fam('from-into',TS,D+'#[serde(from = "F<T>", into = "F<Vec<T>>")] pub struct @D { p: PhantomData<T> }',A1)
fam('enum-from',TS,D+'#[serde(from = "F<T>")] pub enum @D { A(PhantomData<T>) }',A1)
fam('extend-field',TJT,D+'pub struct @D { #[schemars(extend("x-k" = <T as Tr>::K))] a: u8, p: PhantomData<T> }',A1)
fam('extend-cont',TJT,D+'#[schemars(extend("x-k" = <T as Tr>::K))] pub struct @D { a: u8, p: PhantomData<T> }',A1)
fam('extend-array',TJT,D+'#[schemars(extend("x-k" = [<T as Tr>::K, 0]))] pub struct @D { a: u8, p: PhantomData<T> }',A1)
fam('transform-cont',TJT,D+'#[schemars(transform = <T as Tr>::mark)] pub struct @D { a: u8, p: PhantomData<T> }',A1)
fam('transform-field',TJT,D+'pub struct @D { #[schemars(transform = AddK::<T>(PhantomData))] a: u8, p: PhantomData<T> }',A1)
fam('transform-turbofish',TJT,D+'#[schemars(transform = AddK(PhantomData::<T>))] pub struct @D { a: u8, p: PhantomData<T> }',A1)
fam('example',TJT,D+'#[schemars(example = <T as Tr>::K)] pub struct @D { a: u8, p: PhantomData<T> }',A1)
fam('default-fn',TT,D+'pub struct @D { #[serde(default = "k::<T>")] a: usize, p: PhantomData<T> }',A1)
fam('default-cont',TT,D+'#[serde(default = "mk::<T>")] pub struct @D { a: usize, #[serde(skip)] p: PhantomData<T> } fn mk<T: Tr>() -> @[T] { @[T] { a: <T as Tr>::K, p: PhantomData } }'.replace('@[T] { a','@C { a'),A1)
fam('default-impl',TT,D+'#[serde(default)] pub struct @D { a: usize, #[serde(skip)] p: PhantomData<T> } @I<Default> { fn default() -> Self { Self { a: <T as Tr>::K, p: PhantomData } } }',A1)
fam('default-infer',TT,D+'#[serde(default = "mk")] pub struct @D { a: usize, #[serde(skip)] p: PhantomData<T> } fn mk<T: Tr>() -> @[T] { @C { a: <T as Tr>::K, p: PhantomData } }',A1)
fam('default-with',['T: Default + serde::Serialize'],D+'pub struct @D { #[serde(default)] #[schemars(with = "serde_json::Value")] a: T }',A1)
fam('extend-self',TT,'@I<HasK> { const K: usize = <T as Tr>::K; } '+D+'#[schemars(extend("x-k" = Self::K))] pub struct @D { a: u8, p: PhantomData<T> }',A1)
fam('title',TT,D+'#[schemars(title = <T as Tr>::S)] pub struct @D { a: usize, #[serde(skip)] p: PhantomData<T> }',A1)
fam('description',TT,D+'pub struct @D { #[schemars(description = <T as Tr>::S)] a: usize, #[serde(skip)] p: PhantomData<T> }',A1)
fam('range',TT,D+'pub struct @D { #[schemars(range(max = <T as Tr>::K))] a: usize, #[serde(skip)] p: PhantomData<T> }',A1)
fam('length',TT,D+'pub struct @D { #[schemars(length(max = <T as Tr>::K))] a: String, #[serde(skip)] p: PhantomData<T> }',A1)
fam('inner-range',TT,D+'pub struct @D { #[schemars(inner(range(max = <T as Tr>::K)))] a: Vec<usize>, #[serde(skip)] p: PhantomData<T> }',A1)
fam('regex',TT,D+'pub struct @D { #[schemars(regex(pattern = <T as Tr>::S))] a: String, #[serde(skip)] p: PhantomData<T> }',A1)
fam('skip-if',TJ,D+'pub struct @D { #[serde(skip_serializing_if = "never::<Vec<T>>")] a: Vec<T> }',A1[:3])
fam('bound',T,D+'#[schemars(bound = "T: JsonSchema")] pub struct @D { a: Vec<T> }',A1)
fam('bound-field',T,D+'pub struct @D { #[schemars(bound = "T: JsonSchema")] a: Vec<T> }',A1)
# associated types
fam('assoc',TT,D+'#[schemars(bound = "")] pub struct @D { a: <T as Tr>::Out }',A1)
fam('assoc-vec',TT,D+'#[schemars(bound = "")] pub struct @D { a: Vec<<T as Tr>::Out> }',A1)
fam('assoc-bound',TT,D+'pub struct @D { a: <T as Tr>::Out }',A1)
fam('assoc-short',TT,D+'#[schemars(bound = "")] pub struct @D { a: T::Out }',A1)
fam('assoc-self',TT,'impl<T: Tr> HasOut for @[T] { type Out = <T as Tr>::Out; } '+D+'pub struct @D { p: PhantomData<T>, a: Vec<<Self as HasOut>::Out> }',A1)
fam('schema-with-self',TS,'@I<HasSch> { fn sch(g: &mut schemars::SchemaGenerator) -> schemars::Schema { f::<T>(g) } } '+D+'pub struct @D { p: PhantomData<T>, #[schemars(schema_with = "Self::sch")] a: u8 }',A1) if False else None
fam('macro-type',TJ,D+'pub struct @D { a: nlib::same!(T) }',A1[4:7])
fam('macro-type-nested',TJ,D+'pub struct @D { a: Vec<nlib::same!(Option<T>)> }',A1[4:7])
fam('dyn-free',["T = u8"],D+'pub struct @D { a: T }',A1)
# transparent types are the type they wrap
fam('transparent',T,D+'#[serde(transparent)] pub struct @D { a: T }',A1,transparent=True)
fam('transparent-phantom',T,D+'#[serde(transparent)] pub struct @D { a: Vec<T>, #[serde(skip)] p: PhantomData<T> }',A1,transparent=True)
fam('transparent-desc',T,D+'/// doc\n#[serde(transparent)] pub struct @D { a: T }',A1)
fam('transparent-field-desc',T,D+'#[serde(transparent)] pub struct @D { /** doc */ a: T }',A1)
fam('inline',T,D+'#[schemars(inline)] pub struct @D { a: T }',A1)
fam('inline-rec',T,D+'#[schemars(inline)] pub struct @D { a: Other<T> } '+D+'pub struct Other<T> { b: Option<Box<Other<T>>>, c: T }',A1)
# two parameters
fam('two',TU,D+'@R pub struct @D { a: T, b: U }',A2)
fam('two-swapped',TU,D+'pub struct @D { b: U, a: T }',A2)
fam('two-tuple',TU,D+'pub struct @D((T, U), u8);',A2)
fam('two-map',TU,D+'pub struct @D { a: BTreeMap<String, (T, U)> }',A2)
fam('two-result',TU,D+'pub struct @D { a: Result<T, U> }',A2)
fam('two-either',TU,D+'pub struct @D { a: either1::Either<T, U> }',A2)
fam('two-nest',TU,D+'pub struct @D { a: Q<T, Q<U, T>> } '+D+'pub struct Q<A, B> { a: A, b: B }',A2)
fam('two-second',TU,D+'pub struct @D { a: PhantomData<T>, b: U }',A2[:8])
fam('two-first',TU,D+'pub struct @D { a: T, b: PhantomData<U> }',A2[:8])
fam('two-enum',TU,D+'pub enum @D { A(T), B(U) }',A2)
fam('two-enum-unt',TU,D+'#[serde(untagged)] pub enum @D { A(T), B { b: U } }',A2)
# recursion
fam('rec',T,D+'pub struct @D { a: T, next: Option<Box<@[T]>> }',A1)
fam('rec-vec',T,D+'pub enum @D { Leaf(T), Node(Vec<@[T]>) }',A1)
fam('rec-self',T,D+'pub struct @D { a: T, next: Option<Box<Self>> }',A1)
fam('alt',TU,D+'pub struct @D { a: T, next: Option<Box<@[U, T]>> }',A2)
fam('alt3',['T','U','V'],D+'pub struct @D { a: T, next: Option<Box<@[U, V, T]>> }',[('u8','String','m::X'),('String','m::X','u8'),('m::X','u8','String'),('u8','u8','String'),('u8','String','u8'),('String','u8','u8')])
fam('mutual',T,D+'pub struct @D { a: T, next: Option<Box<Mate<T>>> } '+D+'pub struct Mate<T> { b: Vec<T>, back: Option<Box<S<T>>> }',[]) # no twin by substitution
# const parameters
C2=['const N: usize','const M: usize']
NM=[('1','11'),('11','1'),('111','1'),('1','111'),('11','11'),('0','0')]
fam('const',['const N: usize'],D+'@R #[schemars(extend("x-n" = N))] pub struct @D { a: u8 }',['0','1','11','2'])
fam('const2',C2,D+'@R #[schemars(extend("x-n" = N, "x-m" = M))] pub struct @D { a: u8 }',NM)
fam('const-range',C2,D+'pub struct @D { #[schemars(range(min = N, max = M))] a: usize }',NM)
fam('const-length',C2,D+'pub struct @D { #[schemars(length(min = N, max = M))] a: String }',NM)
fam('const-i8',['const N: i8','const M: i8'],D+'#[schemars(extend("x-n" = N, "x-m" = M))] pub struct @D { a: u8 }',[('1','-1'),('-1','1'),('1','1'),('-1','-1'),('11','1'),('1','11')])
fam('const-bool',['const N: bool','const M: bool'],D+'#[schemars(extend("x-n" = N, "x-m" = M))] pub struct @D { a: u8 }',[('true','false'),('false','true'),('true','true')])
fam('const-char',['const N: char','const M: char'],D+'#[schemars(extend("x-n" = N, "x-m" = M))] pub struct @D { a: u8 }',[("','","'a'"),("'a'","','"),("'a'","'b'"),("'>'","'<'"),("'<'","'>'"),("'{'","'}'")])
fam('const-char-num',['const N: char','const M: u8'],D+'#[schemars(extend("x-n" = N, "x-m" = M))] pub struct @D { a: u8 }',[("'1'","11"),("'1'","1"),("'1'","111")])
fam('const-type',['T','const N: usize'],D+'@R #[schemars(extend("x-n" = N))] pub struct @D { a: T }',[(a,n) for a in ['u8','String','m::X','n::X'] for n in '12'])
fam('const-arr',['const N: usize'],D+'pub struct @D where [u8; N]: JsonSchema { a: [u8; N] }',['1','2','11'])
fam('const-arr2',['T','const N: usize'],D+'pub struct @D where [T; N]: JsonSchema { a: [T; N] }',[(a,n) for a in ['u8','String','m::X','n::X'] for n in ['1','2','11']])
fam('const-arrayvec',['T','const N: usize'],D+'pub struct @D { a: arrayvec07::ArrayVec<T, N> }',[(a,n) for a in ['u8','m::X','n::X'] for n in ['1','2','11']])
fam('const-schema-with',['const N: usize'],D+'pub struct @D { #[schemars(schema_with = "n::<N>")] a: u8 }',['1','2','11'])
# rename templates: the name is known
def nm(tpl):
    return lambda ps,inst: re.sub(r'\{\{|\}\}|\{(\w+)\}',lambda m: {'{{':'{','}}':'}'}.get(m.group(0)) or ARGS.get(inst[ps.index(m.group(1))],inst[ps.index(m.group(1))].strip("'")),tpl)
for i,tpl in enumerate(['W{T}','W_{T}_{T}','{T}','{{T}}','{{{T}}}','Plain','a {T} b','Ⱶ{T}','S<{T}>']):
    for n,ty in {'t':'T','phantom':'PhantomData<T>','vec':'Vec<T>'}.items():
        fam(f'name/{i}/{n}',T,D+f'@R pub struct @D {{ a: {ty} }}',A1,rename=tpl)
for i,tpl in enumerate(['{T}{U}','{U}{T}','{U}','x{{{U}}}y','{T}_{T}_{U}']):
    fam(f'name2/{i}',TU,D+'@R pub struct @D { a: T, b: U }',A2,rename=tpl)
    fam(f'name2/{i}/enum',TU,D+'@R pub enum @D { A(T), B { b: U } }',A2[:8],rename=tpl)
for i,tpl in enumerate(['{N}{M}','{N}','{M}_{N}','{{N}}','n{N:>5}' if False else 'n{N}']):
    fam(f'namec/{i}',C2,D+'@R #[schemars(extend("x-n" = N, "x-m" = M))] pub struct @D { a: u8 }',NM,rename=tpl)
fam('namec/char',['const N: char'],D+'@R #[schemars(extend("x-n" = N))] pub struct @D { a: u8 }',["'a'","'b'","'/'","'~'"],rename='c{N}')
fam('namect',['T','const N: usize'],D+'@R #[schemars(extend("x-n" = N))] pub struct @D { a: T }',[(a,n) for a in ['u8','m::X','n::X'] for n in ['1','11']],rename='{T}{N}')

progs=[]
def twin_name(i,inst): return f'Tw{i}_'+re.sub(r'\W','_',repr(inst))
def subst(t,ps,inst):
    # parameters become arguments; in types, consts are literals
    for p,a in zip(ps,inst):
        if p.startswith("'"): continue
    mp={p:a for p,a in zip(ps,inst)}
    return re.sub(r"(?<!\{)\b("+'|'.join(map(re.escape,[p for p in mp]))+r")\b(?!\})",lambda m: mp[m.group(1)],t) if mp else t
def self_uses(t,repl):
    return re.sub(r'@\[([^\]]*)\]',lambda m: repl([x.strip() for x in m.group(1).split(',')]),t)
src_mods=[]
for i,(name,decl,ps,text,insts,rename,ident,transparent) in enumerate(fams):
    if not insts: continue
    insts=list(dict.fromkeys(insts))
    ren=f'#[schemars(rename = "{rename}")]' if rename else ''
    bare=[d.split('=')[0] if '=' in d and not d.startswith('const') else d for d in decl]
    def gen_I(m): return f"impl<{', '.join(d.split('=')[0] for d in bare)}> {m.group(1)} for {ident}<{', '.join(ps)}>"
    g=text.replace('@D',f"{ident}<{', '.join(decl)}>").replace('@R',ren).replace('@C',ident)
    g=re.sub(r'@I<(\w+)>',gen_I,g)
    g=self_uses(g,lambda a: f"{ident}<{', '.join(a)}>")
    mods=[]; regs=[]
    for inst in insts:
        sps,sinst=ps,inst
        if decl[0].startswith("'"): sps,sinst=ps[1:],inst[1:]
        tw=twin_name(i,inst)
        t=text.replace('@R','').replace('@D','@@D').replace('@C','@@C')
        t=re.sub(r'impl<[^>]*> HasOut for @\[T\]','impl HasOut for @@C',t)
        t=re.sub(r'@I<(\w+)>',lambda m: f'impl {m.group(1)} for @@C',t)
        t=re.sub(r'fn mk<T: Tr>\(\)','fn mk()',t).replace('mk::<T>','mk')
        # a helper definition inside the family keeps its own parameter
        helper=''
        mm=re.search(re.escape(D)+r'pub struct (Mid|Other|Q)<.*$|pub mod mi .*$',t)
        if mm: helper=t[mm.start():]; t=t[:mm.start()]
        t=t.replace('bound = "T: JsonSchema"','bound = ""')
        t=re.sub(r'\bT::Out','<T as Tr>::Out',t)
        t=self_uses(t,lambda a: '@@['+subst(','.join(a),sps,sinst)+']')
        t=subst(t,sps,sinst)
        if decl[0].startswith("'"): t=t.replace("&'a","&'static")
        t=re.sub(r'@@\[([^\]]*)\]',lambda m: 'super::'+'t%d::'%insts.index(tuple(m.group(1).split(',')))+twin_name(i,tuple(m.group(1).split(','))),t)
        t=t.replace('@@D',tw).replace('@@C',tw)
        mods.append(f"pub mod t{insts.index(inst)} {{ use super::prelude::*; {t} {helper} }}")
        args=', '.join(a if not a.startswith('-') else '{'+a+'}' for a in inst)
        typ=f"g::{ident}<{args}>"
        twt=f"t{insts.index(inst)}::"+tw
        if transparent: en='None'
        elif rename: en=f'Some({rs(nm(rename)(ps,inst))})'
        else: en=f'Some("{ident}")'
        eid=f"{name}<{', '.join(inst)}>"
        regs.append(f'nlib::entry::<{typ}, {twt}>({rs(eid)}, {rs(name)}, {rs(re.sub(chr(10)," ",g))}, {en})')
    src_mods.append((name,f"pub mod g {{ use super::prelude::*; {g} }} "+' '.join(mods),regs))

# same names in different places, written out with their twins by hand
def hand(name,src,pairs):
    regs=[f'nlib::entry::<{t}, {w}>({rs(name+": "+t)}, {rs(name)}, {rs(src)}, {n})' for t,w,n in pairs]
    src_mods.append((name,'pub mod g { use super::prelude::*; '+src+' } use g::*;',regs))
S=lambda x: f'Some("{x}")'
hand('same-ident-modules',D+'pub struct S { a: u8 } pub mod m { use super::*; '+D+'pub struct S { b: u8 } pub mod m { use super::*; '+D+'pub struct S { c: u8 } } } '+D+'pub struct Ta { a: u8 } '+D+'pub struct Tb { b: u8 } '+D+'pub struct Tc { c: u8 }',
     [('g::S','Ta',S('S')),('g::m::S','Tb',S('S')),('g::m::m::S','Tc',S('S'))])
hand('same-rename',D+'#[schemars(rename = "Same")] pub struct A { a: u8 } '+D+'#[serde(rename = "Same")] pub struct B { b: u8 } '+D+'pub struct Same { c: u8 } '+D+'#[schemars(rename = "A")] pub struct C { d: u8 } '+D+'pub struct Ta { a: u8 } '+D+'pub struct Tb { b: u8 } '+D+'pub struct Tc { c: u8 } '+D+'pub struct Td { d: u8 } ',
     [('g::A','Ta',S('Same')),('g::B','Tb',S('Same')),('g::Same','Tc',S('Same')),('g::C','Td',S('A'))])
hand('same-rename-generic',D+'#[schemars(rename = "S<{T}>")] pub struct A<T> { a: T } '+D+'#[schemars(rename = "S<{T}>")] pub struct B<T> { b: T } '+D+'pub struct S<T> { c: T } '+D+'#[schemars(rename = "S<uint8>")] pub struct C { d: u8 } '+D+'#[schemars(rename = "S<u8>")] pub struct E { e: u8 } '+D+'pub struct Ta { a: u8 } '+D+'pub struct Tb { b: u8 } '+D+'pub struct Tc { c: u8 } '+D+'pub struct Td { d: u8 } '+D+'pub struct Te { e: u8 }',
     [('g::A<u8>','Ta',S('S<uint8>')),('g::B<u8>','Tb',S('S<uint8>')),('g::S<u8>','Tc',S('S')),('C','Td',S('S<uint8>')),('g::E','Te',S('S<u8>'))])
hand('split-rename',D+'#[serde(rename(serialize = "Ser", deserialize = "De"))] pub struct A { a: u8 } '+D+'pub struct Ser { b: u8 } '+D+'pub struct De { c: u8 } '+D+'pub struct Ta { a: u8 } '+D+'pub struct Tb { b: u8 } '+D+'pub struct Tc { c: u8 }',
     [('A','Ta','None'),('Ser','Tb',S('Ser')),('De','Tc',S('De'))])
hand('remote',D+'#[serde(remote = "nlib::rem1::R")] pub struct R1 { a: u8 } '+D+'#[serde(remote = "nlib::rem2::R")] pub struct R2 { b: u8 } '+D+'pub struct R { c: u8 } '+D+'#[serde(remote = "nlib::rem3::R")] pub struct R3<T> { d: T } '+D+'pub struct Ta { a: u8 } '+D+'pub struct Tb { b: u8 } '+D+'pub struct Tc { c: u8 } '+D+'pub struct Td { d: u8 } '+D+'pub struct Te { d: m::X }',
     [('R1','Ta',S('R')),('R2','Tb',S('R')),('g::R','Tc',S('R')),('R3<u8>','Td',S('R')),('R3<m::X>','Te',S('R'))])
hand('raw-ident',D+'pub struct r#type { a: u8 } '+D+'pub struct r#Plain { b: u8 } pub mod r#mod { use super::*; '+D+'pub struct r#type { c: u8 } } '+D+'pub struct Ta { a: u8 } '+D+'pub struct Tb { b: u8 } '+D+'pub struct Tc { c: u8 }',
     [('r#type','Ta',S('type')),('Plain','Tb',S('Plain')),('r#mod::r#type','Tc',S('type'))])
hand('with-remote',D+'pub struct S { #[schemars(with = "ADef")] a: u8, #[schemars(with = "BDef")] b: u8 } '+D+'#[serde(remote = "nlib::rem1::R")] pub struct ADef { a: u8 } '+D+'#[serde(remote = "nlib::rem2::R")] pub struct BDef { b: u8 } '+D+'pub struct W { a: Ta, b: Tb } '+D+'pub struct Ta { a: u8 } '+D+'pub struct Tb { b: u8 }',
     [('g::S','W',S('S'))])
hand('mutual',D+'pub struct S<T> { a: T, next: Option<Box<Mate<T>>> } '+D+'pub struct Mate<T> { b: Vec<T>, back: Option<Box<S<T>>> } '+D+'pub struct Wa { a: u8, next: Option<Box<Wb>> } '+D+'pub struct Wb { b: Vec<u8>, back: Option<Box<Wa>> } '+D+'pub struct Wc { a: m::X, next: Option<Box<Wd>> } '+D+'pub struct Wd { b: Vec<m::X>, back: Option<Box<Wc>> }',
     [('S<u8>','Wa',S('S')),('Mate<u8>','Wb',S('Mate')),('S<m::X>','Wc',S('S')),('Mate<m::X>','Wd',S('Mate'))])
hand('transparent-same',D+'pub struct S { a: u8 } '+D+'#[serde(transparent)] pub struct A(pub S); '+D+'#[serde(transparent)] pub struct B { pub x: A } '+D+'#[schemars(with = "S")] pub struct C; '+D+'#[schemars(with = "C")] pub struct E; '+D+'pub struct Ta { a: u8 }',
     [('g::S','Ta',S('S')),('A','Ta',S('S')),('B','Ta',S('S')),('C','Ta',S('S')),('E','Ta',S('S'))])
# built-in types with the same argument names, as arguments of one generic type
comps=['Option<{}>','Vec<{}>','Box<[{}]>','({},)','({}, u8)','(u8, {})','[{}; 1]','[{}; 2]','[{}; 11]','BTreeMap<String, {}>','BTreeMap<u8, {}>','BTreeMap<i8, {}>','BTreeMap<bool, {}>','std::collections::HashMap<char, {}>','std::collections::BTreeSet<{}>','Result<{}, u8>','Result<u8, {}>','std::ops::Bound<{}>','std::ops::Range<{}>','either1::Either<{}, u8>','either1::Either<u8, {}>','arrayvec07::ArrayVec<{}, 1>','arrayvec07::ArrayVec<{}, 2>','arrayvec07::ArrayVec<{}, 11>','smallvec1::SmallVec<[{}; 1]>','Option<Vec<{}>>','Vec<Option<{}>>','(({},), u8)','(({}, u8),)','Option<Option<{}>>','Result<Vec<{}>, u8>','Result<Result<{}, u8>, u8>','Result<{}, Result<u8, u8>>','BTreeMap<String, BTreeMap<String, {}>>']
comps+=['BTreeMap<{}, u8>','std::collections::HashMap<{}, String>','std::collections::BTreeSet<{}>','std::collections::HashSet<{}>','std::collections::VecDeque<{}>','std::collections::BinaryHeap<{}>','std::collections::LinkedList<{}>',
 'indexmap2::IndexMap<{}, u8>','indexmap2::IndexMap<u8, {}>','indexmap2::IndexSet<{}>','BTreeMap<Option<{}>, u8>','std::ops::RangeInclusive<{}>','std::cell::Cell<{}>','std::sync::RwLock<{}>','std::num::Wrapping<{}>','std::rc::Weak<{}>','std::cmp::Reverse<{}>','std::borrow::Cow<\'static, {}>',
 '({}, u8, u8)','(u8, {}, u8)','(u8, u8, {})','({}, {}, u8)','(u8, u8, u8, {})','[{}; 12]','[{}; 32]','[[{}; 2]; 3]','[[{}; 3]; 2]','Vec<({}, u8)>','Either2<{}>'][:-1]
comps=list(dict.fromkeys(comps))
def builtin():
    defs=[D+'pub struct S<T> { a: T }']; pairs=[]
    for ci,c in enumerate(comps):
        for ai,a in enumerate(['u8','m::X','n::X','Leaf','other::Leaf','String']+(['m::K','n::K'] if 'Map' in c or 'Set' in c else [])):
            ty=c.replace('{}',a)
            defs.append(D+f'pub struct W{ci}_{ai} {{ a: {ty} }}')
            pairs.append((f'S<{ty}>',f'W{ci}_{ai}',S('S')))
    for i in range(0,len(pairs),40):
        hand(f'builtin-args/{i//40}',' '.join(defs),pairs[i:i+40]) if False else None
    hand('builtin-args',' '.join(defs),pairs)
    # every built-in type as an argument: those that differ in what they accept must be told apart
    plain='bool char String f32 f64 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize ()'.split()
    plain+=['std::num::NonZero'+x for x in 'I8 I16 I32 I64 I128 Isize U8 U16 U32 U64 U128 Usize'.split()]
    plain+=['std::sync::atomic::Atomic'+x for x in 'Bool I8 I16 I32 I64 Isize U8 U16 U32 U64 Usize'.split()]
    plain+=['std::path::PathBuf','std::net::Ipv4Addr','std::net::Ipv6Addr','std::net::IpAddr','std::net::SocketAddr','std::net::SocketAddrV4','std::net::SocketAddrV6','std::time::Duration','std::time::SystemTime','std::ffi::OsString','std::ffi::CString','&\'static str','&\'static std::path::Path',
      'serde_json::Value','serde_json::Map<String, serde_json::Value>','serde_json::Number','schemars::Schema','PhantomData<u8>',
      'chrono04::Weekday','chrono04::TimeDelta','chrono04::NaiveDate','chrono04::NaiveDateTime','chrono04::NaiveTime','chrono04::DateTime<chrono04::Utc>',
      'jiff02::Timestamp','jiff02::Zoned','jiff02::civil::Date','jiff02::civil::Time','jiff02::civil::DateTime','jiff02::Span','jiff02::SignedDuration',
      'uuid1::Uuid','url2::Url','semver1::Version','rust_decimal1::Decimal','bigdecimal04::BigDecimal','bytes1::Bytes','bytes1::BytesMut','smol_str02::SmolStr','smol_str03::SmolStr']
    plain+=[f'[u8; {n}]' for n in range(33)]+['('+'u8, '*n+')' for n in range(1,17)]+['[String; 0]']
    defs=[D+'pub struct S<T> { a: T }']; pairs=[]
    for i,ty in enumerate(plain):
        defs.append(D+f'pub struct W{i} {{ a: {ty} }}')
        pairs.append((f'S<{ty}>',f'W{i}',S('S')))
    hand('builtin-types',' '.join(defs),pairs)
builtin()
# definitions local to functions of one module
src_mods.append(('local','''pub mod g { use super::prelude::*; #[derive(JsonSchema)] pub struct Ta { a: u8 } #[derive(JsonSchema)] pub struct Tb { b: u8 }
  pub fn one() -> nlib::Entry { #[derive(JsonSchema)] struct Local { a: u8 } nlib::entry::<Local, Ta>("local: one()", "local", "fn one() { struct Local { a: u8 } }", Some("Local")) }
  pub fn two() -> nlib::Entry { #[derive(JsonSchema)] struct Local { b: u8 } nlib::entry::<Local, Tb>("local: two()", "local", "fn two() { struct Local { b: u8 } }", Some("Local")) } }''',['g::one()','g::two()']))
PRE='''pub mod prelude { pub use nlib::{*, self}; pub use schemars::JsonSchema; pub use std::marker::PhantomData; pub use std::collections::BTreeMap; }'''
sel=os.environ.get('GEN_ONLY')
src_mods=[m for m in src_mods if not sel or re.search(sel,m[0])]
cnt=0
for c in range(N):
    mods=['#![allow(warnings)]']; regs=[]
    for j,(name,src,rg) in enumerate(src_mods[c::N]):
        cnt+=len(rg)
        fns=''.join(f'fn e{k}() -> nlib::Entry {{ {r} }} ' for k,r in enumerate(rg))
        mods.append(f'pub mod p{j} {{ {PRE} use prelude::*;\n{src}\n{fns}\npub const ALL: &[fn() -> nlib::Entry] = &[{", ".join(f"e{k}" for k in range(len(rg)))}]; }}')
        regs.append(f'p{j}::ALL')
    mods.append('pub static ALL: &[&[fn() -> nlib::Entry]] = &['+', '.join(regs)+'];')
    write(f'{OUT}/n{c}/src/lib.rs','\n'.join(mods)+'\n')
    write(f'{OUT}/n{c}/Cargo.toml',f'''[package]
name = "n{c}"
version = "0.1.0"
edition = "2021"
[dependencies]
nlib = {{ path = "../../nlib" }}
schemars = {{ path = "/repo/schemars", features = ["preserve_order"] }}
serde = {{ version = "1", features = ["derive"] }}
[profile.dev]
opt-level = 0
debug = 0
[workspace]
''')
print(cnt,'types in',len(src_mods),'families')
