#!/usr/bin/env python3
"""D06: doc comments, annotation attributes in every position, and defaults."""
import itertools, json, re, os
from genlib import *
H='#'*4
def rstr(s): return f'r{H}"{s}"{H}'
def lit(s): return '"'+''.join(c if ' '<=c<'\x7f' and c not in '"\\' else '\\u{%x}'%ord(c) for c in s)+'"'

# ---- A. documentation strings ----------------------------------------------------------------------------------
WS='\t\n\x0c\r '   # ASCII whitespace
def doc_model(lines):
    """lines: (text, is a string literal); the title and the description the item gets"""
    text='\n'.join(t[1:] if l and t.startswith(' ') else t for t,l in lines).strip(WS)
    if not text.startswith('#'): return None,(text or None)
    head,_,rest=text.partition('\n')
    return (head.lstrip('#').strip(WS) or None),(rest.strip(WS) or None)
ALPHA=['#',' ','\n','a','é','\t']
strings=['']
cur=['']
for _ in range(4):
    cur=[p+c for p in cur for c in ALPHA]; strings+=cur
docs=[([(s,True)],f'#[doc = {lit(s)}]') for s in strings]
for s in ['#\r\na','\r# a\r\r\nb','# a\x0c\n\x0cb','#a\x0bb\n\x0b','# a\u2028b','\u00a0# a','# \u00a0a','# a #\n\n# b','## a\nb','#!a','# a\\n b','# "q" {x}\n{0} "','# a\n\n\nb\n\n\nc\n','   # a\n b','\u3000','🦀# 🦀\n🦀','# 🦀\n🦀','\x00','#\x00\n\x00']:
    docs.append(([(s,True)],f'#[doc = {lit(s)}]'))
LINES=['',' ',' a','a',' # a','#a','  b','\n',' \tb','\tb','     c  ','  # a',' é']
for n in (2,3):
    for c in itertools.product(LINES,repeat=n): docs.append(([(s,True) for s in c],' '.join(f'#[doc = {lit(s)}]' for s in c)))
for c in itertools.product(['',' # a',' b','   c',' ```'],repeat=4): docs.append(([(s,True) for s in c],' '.join(f'#[doc = {lit(s)}]' for s in c)))
# not string literals: no leading space is removed
for s in [' a','# t','a','  # t\nd']:
    docs.append(([(s,False)],f'#[doc = concat!({lit(s[:1])}, {lit(s[1:])})]'))
    for o in [' b','b','']:
        docs.append(([(o,True),(s,False)],f'#[doc = {lit(o)}] #[doc = concat!({lit(s)})]'))
        docs.append(([(s,False),(o,True)],f'#[doc = concat!({lit(s)})] #[doc = {lit(o)}]'))
# as comments
def line(*ls): return [(l,True) for l in ls],'\n'+''.join(f'///{l}\n' for l in ls)
def block(s): return [(s,True)],f'/**{s}*/'
docs+=[line(*l) for l in [[' a'],[' # a'],['# a'],[' a',' b'],[' # a',' b'],[' # a','',' b','',' c'],['',' # a',' b'],[' a',' # b'],['  a','   b'],[' # a',' # b'],[' #a'],[' #'],['',''],[' ## a ##','','',' b  '],[' `#` a'],['#\ta'],['! a'],[' a "b" \\n {} \\']]]
docs+=[block(s) for s in [' a ',' # a ','\n # a\n b\n','# a\nb',' a\n b ','\n# a\n\n  b\n c\n']]
# attributes that are not documentation text
docs+=[([],'#[doc(hidden)]'),([],'#[doc(alias = "zz")]'),([(' a',True)],'#[doc(hidden)]\n/// a\n'),([(' # a',True),(' b',True)],'\n/// # a\n#[doc(alias = "zz")]\n/// b\n'),([(' a',True)],'#[cfg_attr(all(), doc = " a")]'),([],'#[cfg_attr(any(), doc = " a")]'),([('a',False)],'#[doc = stringify!(a)]'),
 ([(' # a',True),(' b',True)],'#[cfg_attr(all(), doc = " # a", doc = " b")]'),([(' r',True)],'#[doc = r##" r"##]')]
def chunks(l,n): return [l[i:i+n] for i in range(0,len(l),n)]
progs=[]; spec={'docs':[],'frames':[],'defaults':[]}
DER='#[derive(JsonSchema)] '
for n,c in enumerate(chunks(docs,40)):
    i=f'doc{n:04}'
    progs.append((i,DER+'struct T { '+' '.join(f'{a} f{k}: bool,' for k,(_,a) in enumerate(c))+' }'))
    spec['docs'].append([i,[list(doc_model(l)) for l,_ in c]])

# ---- B. annotations --------------------------------------------------------------------------------------------
# (text, operations, may the annotation change what is accepted?)
def doc(*ls):
    l,a=line(*ls); t,d=doc_model(l)
    return a,[['title',t],['description',d]],False
def ann(a,*ops,sem=False): return a,[list(o) for o in ops],sem
ANN=[
 doc(' Some words.'), doc(' # A title'), doc(' # A title','',' Some','  words.'), doc(''),
 ann('#[doc = " one"] #[doc = " two"]',('description','one\ntwo')),
 ann('#[schemars(title = "T")]',('title','T')),
 ann('#[schemars(description = "D")]',('description','D')),
 ann('#[schemars(title = " T # ", description = "# D\\n ")]',('title',' T # '),('description','# D\n ')),
 ann('\n/// # doc title\n/// doc words\n#[schemars(title = "T")]',('title','T'),('description','doc words')),
 ann('#[schemars(description = "D")]\n/// # doc title\n/// doc words\n',('title','doc title'),('description','D')),
 ann('\n/// doc words\n#[schemars(description = "D", title = "T")]',('title','T'),('description','D')),
 ann('\n/// # doc title\n/// doc words\n#[schemars(title = "")]',('title',None),('description','doc words'),('explicit title',)),
 ann('\n/// # doc title\n/// doc words\n#[schemars(description = "")]',('title','doc title'),('description',None)),
 ann('#[schemars(title = alib::TITLE, description = concat!("a", 1))]',('title','const title'),('description','a1')),
 ann('#[schemars(title = format!("{}", 1 + 1))] #[schemars(description = String::from("s"))]',('title','2'),('description','s')),
 ann('#[deprecated]',('deprecated',)), ann('#[deprecated = "reason"]',('deprecated',)), ann('#[deprecated(since = "1", note = "n")]\n/// words\n',('description','words'),('deprecated',)),
 ann('#[schemars(example = 1)]',('examples',[1])),
 ann('#[schemars(example = "two words", example = &"word", example = -1.5)]',('examples',['two words','word',-1.5])),
 ann('#[schemars(example = alib::an_in())] #[schemars(example = vec![(1, "x")])]',('examples',[{'in_a':True,'in_b':1},[[1,'x']]])),
 ann('#[schemars(example = None::<u8>, example = (), example = Some(Some(3)))]',('examples',[None,None,3])),
 ann('#[schemars(example = alib::bad_map(), example = 2)]',('examples',[2])),
 ann('#[schemars(example = alib::bad_map())]',('examples',[])),
 ann('#[schemars(example = alib::TITLE, example = vec![1, 2], example = true)]',('examples',['const title',[1,2],True])),
 ann('#[schemars(extend("x-a" = 1))]',('ext','x-a',1)),
 ann('#[schemars(extend("x-a" = {"obj": [1, null, true, {"k": alib::seven()}]}, "x-b" = alib::some_seven()), extend("x-c" = null))]',('ext','x-a',{'obj':[1,None,True,{'k':7}]}),('ext','x-b',7),('ext','x-c',None)),
 ann('#[schemars(extend("" = "empty", "$x/~" = [], "é\\"\\n" = {}, "Not a keyword" = -0.5))]',('ext','','empty'),('ext','$x/~',[]),('ext','é"\n',{}),('ext','Not a keyword',-0.5)),
 ann('\n/// # doc title\n/// doc words\n#[schemars(extend("title" = "E", "description" = null, "examples" = [9]), example = 1)]',('title','E'),('description','doc words'),('examples',[1]),('ext','title','E'),('ext','description',None),('ext','examples',[9])),
 ann('#[deprecated] #[schemars(title = "T", extend("deprecated" = false, "title" = ""))]',('title','T'),('deprecated',),('ext','deprecated',False),('ext','title','')),
 ann('#[schemars(extend("default" = 5))]',('ext','default',5)),
 ann('#[schemars(extend("readOnly" = "r", "writeOnly" = "w"))]',('ext','readOnly','r'),('ext','writeOnly','w')),
 ann('#[schemars(extend("minLength" = 5, "maximum" = 6.5))]',('ext','minLength',5),('ext','maximum',6.5),sem=True),
 ann('#[schemars(transform = alib::Log(1))]',('log',1)),
 ann('#[schemars(transform = alib::Log(1), transform = alib::log_two)]',('log',1),('log',2)),
 ann('#[schemars(transform = alib::Log(3))]\n/// # doc title\n/// doc words\n#[deprecated] #[schemars(title = "T", example = 1, extend("x-a" = 1), transform = alib::log_two)]',('title','T'),('description','doc words'),('deprecated',),('examples',[1]),('ext','x-a',1),('log',3),('log',2)),
 ann('#[cfg_attr(all(), schemars(title = "T"), doc = "words")] #[cfg_attr(any(), schemars(description = "no"))]',('title','T'),('description','words')),
]
# frames: @n@ is where item n's attributes go; outer items have higher numbers
C={}   # containers, as C
def cont(name,src): C[name]=src
A='#[derive(JsonSchema)] '
cont('struct',A+'@0@ struct C { a: u8, b: Option<bool> }')
cont('empty struct',A+'@0@ struct C {}')
cont('unit',A+'@0@ struct C;')
cont('tuple',A+'@0@ struct C(u8, bool);')
cont('empty tuple',A+'@0@ struct C();')
cont('tagged struct',A+'@0@ #[serde(tag = "t")] struct C { a: u8 }')
cont('deny struct',A+'@0@ #[serde(deny_unknown_fields)] struct C { a: u8 }')
cont('with',A+'@0@ #[schemars(with = "String")] struct C { a: u8 }')
cont('schema_with',A+'@0@ #[schemars(schema_with = "alib::schema_int")] struct C { a: u8 }')
cont('with In',A+'@0@ #[schemars(with = "In")] enum C { A }')
cont('from',A+'@0@ #[schemars(from = "In")] struct C { a: u8 }')
cont('into',A+'@0@ #[schemars(into = "String")] struct C { a: u8 }')
cont('from into',A+'@0@ #[schemars(try_from = "u8", into = "bool")] struct C { a: u8 }')
cont('rename',A+'@0@ #[schemars(rename = "Other")] struct C { a: u8 }')
cont('generic',A+'@0@ #[schemars(rename = "G{X}")] struct C<X = u8> { @x@ a: X }'.replace('@x@ ',''))
cont('ext enum',A+'@0@ enum C { U, V(u8), S { a: u8 } }')
cont('unit enum',A+'@0@ enum C { U, V }')
cont('int enum',A+'@0@ #[serde(tag = "t")] enum C { U, V(In), S { a: u8 } }')
cont('adj enum',A+'@0@ #[serde(tag = "t", content = "c")] enum C { U, V(u8), S { a: u8 } }')
cont('unt enum',A+'@0@ #[serde(untagged)] enum C { U, V(u8), S { a: u8 } }')
cont('empty enum',A+'@0@ enum C {}')
cont('ref variants',A+'@0@ #[schemars(_unstable_ref_variants)] enum C { U, V(u8), S { a: u8 } }')
cont('repr','#[derive(JsonSchema_repr)] #[repr(i8)] @0@ enum C { A = -1, B = 5 }')
cont('recursive',A+'@0@ struct C { a: Option<Box<C>> }')
# where an inner item shares the schema with the outer one
for t in ('u8','In','Option<In>','Value','Vec<u8>'):
    cont(f'newtype of {t}',A+f'@1@ struct C(@0@ {t});')
    cont(f'transparent {t}',A+f'@1@ #[serde(transparent)] struct C {{ @0@ a: {t} }}')
cont('newtype of inline',A+'@2@ struct C(@1@ D); #[derive(JsonSchema)] @0@ #[schemars(inline)] struct D { a: u8 }')
cont('newtype of newtype',A+'@2@ struct C(@1@ D); #[derive(JsonSchema)] @0@ struct D(u8);')
cont('newtype with',A+'@1@ struct C(@0@ #[schemars(with = "In")] u8);')
cont('newtype required',A+'@1@ struct C(@0@ #[validate(required)] Option<In>);')
cont('newtype range',A+'@1@ struct C(@0@ #[schemars(range(min = 1))] u8);')
frames={}
for n,c in C.items():
    frames[f'{n}, root']=c+' type T = C;'
    frames[f'{n}, $ref']=c+' #[derive(JsonSchema)] struct T { f: C, g: Option<C>, v: Vec<C>, b: Box<C> }'
    if 'recursive' not in n:
        k=n=='newtype of inline'
        frames[f'{n}, inline']=re.sub(r'(@\d@ (?:#\[[^]]*\] )*(?:struct|enum) C\b)',r'#[schemars(inline)] \1',c)+' #[derive(JsonSchema)] struct T { f: C, g: Option<C>, v: Vec<C> }'
VARS='@0@ U, @2@ N(@1@ u8), @4@ O(@3@ Option<In>), @6@ P(@5@ In), @7@ Tu(u8, bool), @8@ S { a: u8, b: Option<u8> }, @9@ E {}, @10@ Z(), @11@ K(#[serde(skip)] u8), @12@ #[schemars(with = "String")] W(u8), @13@ #[schemars(schema_with = "alib::schema_int")] X { a: u8 }, @14@ #[serde(rename = "re", alias = "al")] R'
IVARS='@0@ U, @2@ O(@1@ In), @4@ D(@3@ Dn), @6@ Q(@5@ Inl), @8@ Y(@7@ Adj), @10@ M(@9@ BTreeMap<String, u8>), @11@ S { a: u8, b: Option<u8> }, @12@ E {}, @13@ K(#[serde(skip)] u8), @14@ #[schemars(with = "In")] W(u8), @15@ #[serde(rename = "re", alias = "al")] R, @17@ G(@16@ ())'
IDEF=' #[derive(JsonSchema)] #[serde(deny_unknown_fields)] struct Dn { d: u8 } #[derive(JsonSchema)] #[schemars(inline)] struct Inl { q: u8 }'
frames['variants, ext']=A+f'enum T {{ {VARS} }}'
frames['variants, adj']=A+f'#[serde(tag = "t", content = "c")] enum T {{ {VARS} }}'
frames['variants, unt']=A+f'#[serde(untagged)] enum T {{ {VARS} }}'
frames['variants, int']=A+f'#[serde(tag = "t")] enum T {{ {IVARS} }}'+IDEF
for t,a in (('ext',''),('adj','#[serde(tag = "t", content = "c")] '),('unt','#[serde(untagged)] ')): frames[f'variants deny, {t}']=A+a+f'#[serde(deny_unknown_fields)] enum T {{ {VARS} }}'
frames['variants deny, int']=A+f'#[serde(tag = "t", deny_unknown_fields)] enum T {{ {IVARS} }}'+IDEF
frames['variants ref, ext']=A+f'#[schemars(_unstable_ref_variants)] enum T {{ {VARS} }}'
frames['variants ref, int']=A+f'#[schemars(_unstable_ref_variants)] #[serde(tag = "t")] enum T {{ {IVARS} }}'+IDEF
UVARS='A, @0@ B, @2@ #[serde(untagged)] N(@1@ u8), @3@ #[serde(untagged)] S { a: u8 }, @4@ #[serde(untagged)] Tu(u8, bool), @5@ #[serde(untagged)] U, @6@ #[serde(untagged)] #[schemars(with = "bool")] W(u8)'
for t,a in (('ext',''),('adj','#[serde(tag = "t", content = "c")] '),('int','#[serde(tag = "t")] ')):
    v=UVARS if t!='int' else UVARS.replace('@4@ #[serde(untagged)] Tu(u8, bool), ','')
    frames[f'untagged variants, {t}']=A+a+f'enum T {{ {v} }}'
DIRV='@0@ A, @1@ #[serde(skip_serializing)] B(u8), @2@ #[serde(skip_deserializing)] D { a: u8 }, @3@ #[serde(skip)] E(std::cell::OnceCell<u8>), @4@ #[serde(skip_serializing)] F, @5@ K(#[serde(skip_serializing)] u8), @6@ L(#[serde(skip_deserializing)] u8)'
frames['variants skipped, ext']=A+f'enum T {{ {DIRV} }}'
frames['variants skipped, adj']=A+f'#[serde(tag = "t", content = "c")] enum T {{ {DIRV} }}'
FT=['u8','Option<u8>','In','Option<In>','Value','Vec<u8>','String','BTreeMap<String, In>','()','[u8; 2]','Inl','Option<Inl>','Box<In>','Un','Box<Option<String>>','Option<Never>']
FDEF=' #[derive(JsonSchema)] #[schemars(inline)] struct Inl { q: u8 } #[derive(JsonSchema)] enum Un { A, B } #[derive(JsonSchema)] enum Never {}'
nf=', '.join(f'@{i}@ f{i}: {t}' for i,t in enumerate(FT)); tf=', '.join(f'@{i}@ {t}' for i,t in enumerate(FT))
frames['fields']=A+f'struct T {{ {nf} }}'+FDEF
frames['fields, deny']=A+f'#[serde(deny_unknown_fields)] struct T {{ {nf} }}'+FDEF
frames['fields, tuple']=A+f'struct T({tf});'+FDEF
frames['fields, flattened']=A+f'struct T {{ o: bool, #[serde(flatten)] x: X }} #[derive(JsonSchema)] struct X {{ {nf} }}'+FDEF
frames['fields, flattened option']=A+f'struct T {{ o: bool, #[serde(flatten)] x: Option<X> }} #[derive(JsonSchema)] struct X {{ {nf} }}'+FDEF
frames['fields, generic']=A+f'struct X<P, Q> {{ @0@ p: P, @1@ q: Vec<Q>, @2@ r: Option<P> }} type T = X<u8, In>;'
for t,a in (('ext',''),('adj','#[serde(tag = "t", content = "c")] '),('unt','#[serde(untagged)] '),('int','#[serde(tag = "t")] ')):
    s=', '.join(f'@{i}@ f{i}: {x}' for i,x in enumerate(FT)); u=', '.join(f'@{i+len(FT)}@ {x}' for i,x in enumerate(FT)) if t!='int' else ''
    frames[f'fields, {t}']=A+a+f'enum T {{ S {{ {s} }}'+(f', Tu({u})' if u else '')+f', @{2*len(FT)}@ Last {{ }} }}'+FDEF
MODS=['#[serde(default)]','#[serde(default = "alib::seven")]','#[serde(skip_serializing)]','#[serde(skip_deserializing)]','#[serde(rename = "re")]','#[serde(skip_serializing_if = "alib::never")]','#[schemars(with = "In")]','#[schemars(with = "Option<u8>")]','#[schemars(schema_with = "alib::schema_int")]','#[schemars(range(min = 1, max = 9))]','#[serde(rename(serialize = "rs", deserialize = "rd"))]','#[schemars(default, range(min = 3), skip_deserializing)]']
m=', '.join(f'@{i}@ {a} f{i}: u8' for i,a in enumerate(MODS))
frames['fields with modes']=A+f'struct T {{ {m} }}'
frames['fields with modes, default']='#[derive(JsonSchema, Default)] #[serde(default)] '+f'struct T {{ {m} }}'
frames['fields with modes, variant']=A+f'enum T {{ S {{ {m} }} }}'
SMODS=['#[schemars(length(min = 1))] String','#[schemars(length(equal = 3), pattern("^a"))] Option<String>','#[schemars(email)] String','#[schemars(required)] Option<String>','#[schemars(required)] Option<In>','#[schemars(inner(length(min = 2)))] Vec<String>','#[schemars(required, contains("x"))] Option<Option<String>>','#[validate(range(min = 1))] In','#[garde(length(max = 3))] Vec<u8>']
m=', '.join(f'@{i}@ {x.rsplit("] ",1)[0]}] f{i}: {x.rsplit("] ",1)[1]}' for i,x in enumerate(SMODS))
frames['fields with constraints']=A+f'struct T {{ {m} }}'
frames['fields with constraints, tuple']=A+'struct T('+', '.join(f'@{i}@ {x}' for i,x in enumerate(SMODS))+');'
# variants of flattened and embedded enums
for t,a in (('ext',''),('adj','#[serde(tag = "t", content = "c")] '),('unt','#[serde(untagged)] '),('int','#[serde(tag = "t")] ')):
    v='@0@ Va { a: u8 }, @2@ Vb(@1@ In), @3@ Vu' if t!='unt' else '@0@ Va { a: u8 }, @2@ Vb(@1@ In)'
    e=f'#[derive(JsonSchema)] {a}enum E {{ {v} }}'
    for w,ty in (('flattened','E'),('flattened option','Option<E>')):
        frames[f'{w} {t} enum']=A+f'struct T {{ o: bool, #[serde(flatten)] x: {ty} }} '+e
    frames[f'two flattened {t} enums']=A+f'struct T {{ o: bool, #[serde(flatten)] x: E, #[serde(flatten)] y: F, @4@ z: u8 }} '+e+f' #[derive(JsonSchema)] {a.replace(chr(34)+"t"+chr(34),chr(34)+"t2"+chr(34)).replace(chr(34)+"c"+chr(34),chr(34)+"c2"+chr(34))}enum F {{ @5@ Fa {{ fa: u8 }}, @6@ Fb {{ fb: bool }} }}'
    frames[f'newtype variant of {t} enum']=A+f'#[serde(tag = "tt")] enum T {{ @5@ N(@4@ E), @6@ U }} '+e
def fill(src,f): return re.sub(r'@(\d+)@',lambda m: f(int(m.group(1))),src)
SLOTS=lambda src: sorted({int(x) for x in re.findall(r'@(\d+)@',src)})
cnt=0
for name,src in frames.items():
    slots=SLOTS(src)
    mk=lambda n: f'#[schemars(extend("x-id-{n}" = true))] '
    base=f'f{cnt:03}'; cnt+=1
    progs.append((base+'p',fill(src,lambda n:'')))
    progs.append((base+'m',fill(src,mk)))
    vs=[]; plain=[]
    for r in range(len(ANN)):
        at={n:(k+r)%len(ANN) if len(slots)>1 else r for k,n in enumerate(slots)}
        i=f'{base}a{r:02}'
        progs.append((i,fill(src,lambda n: mk(n)+ANN[at[n]][0]+' ')))
        vs.append([i,[[n,at[n]] for n in slots]])
        if len(slots)==2 and name.endswith(('root','ext','unt','int','adj')):
            for o in (3,7,16,27):
                at2={n:(k*o+r)%len(ANN) for k,n in enumerate(slots)}
                j=f'{base}a{r:02}o{o}'
                progs.append((j,fill(src,lambda n: mk(n)+ANN[at2[n]][0]+' ')))
                vs.append([j,[[n,at2[n]] for n in slots]])
        if r%4==cnt%4:
            i=f'{base}n{r:02}'
            progs.append((i,fill(src,lambda n: ANN[at[n]][0]+' ' if not ANN[at[n]][2] else '')))
            plain.append(i)
    spec['frames'].append({'name':name,'p':base+'p','m':base+'m','a':vs,'n':plain,'slots':slots})
spec['ann']=[[a,ops] for a,ops,_ in ANN]
HDR='use schemars::{JsonSchema, JsonSchema_repr}; use serde_json::Value; use alib::{self, In, Adj}; use std::collections::*;'
n=emit('w',8,progs,HDR)

# ---- C. defaults -----------------------------------------------------------------------------------------------
dprogs=[]
SD='#[derive(JsonSchema, Serialize, Deserialize)] '
TY=[('u8','alib::seven','7'),('Option<u8>','alib::some_seven','None'),('Option<u8>','dv::none','Some(3)'),('String','dv::string','"x".into()'),('bool','dv::yes','true'),('f64','dv::half','2.5'),('f64','dv::nan','f64::NAN'),('Vec<u8>','dv::vec','vec![9]'),('In','alib::an_in','alib::other_in()'),('Option<In>','dv::some_in','None'),
 ('BTreeMap<String, u8>','dv::map','BTreeMap::new()'),('(u8, bool)','dv::pair','(1, true)'),('[i8; 2]','dv::arr','[-1, 1]'),('Box<u8>','dv::boxed','Box::new(4)'),('Value','dv::value','Value::Null'),('()','dv::unit','()'),('char','dv::ch','\'c\''),('dv::Unit','dv::mk_unit','dv::Unit'),('dv::En','dv::en_b','dv::En::B'),('dv::En','dv::en_c','dv::En::C { x: 3 }'),('dv::New','dv::new','dv::New(8)'),('dv::Fails','dv::fails','dv::Fails(8)'),('dv::Fails','dv::fails','dv::Fails(7)'),('Vec<dv::Fails>','dv::vec_fails','vec![]'),('std::time::Duration','dv::dur','std::time::Duration::new(1, 2)'),('u64','dv::big','u64::MAX'),('Option<Option<u8>>','dv::opt_opt','None'),('dv::BySerde','dv::by_serde','dv::BySerde(1)'),('Vec<Option<In>>','dv::vec_in','vec![None]')]
JS={'u8':1,'Option<u8>':1,'String':'q','bool':False,'f64':0.5,'Vec<u8>':[1],'In':{'in_a':True},'Option<In>':None,'BTreeMap<String, u8>':{'a':1},'(u8, bool)':[1,False],'[i8; 2]':[1,2],'Box<u8>':1,'Value':[1],'()':None,'char':'x','dv::Unit':None,'dv::En':'A','dv::New':1,'dv::Fails':1,'Vec<dv::Fails>':[1],'std::time::Duration':{'secs':0,'nanos':0},'u64':1,'Option<Option<u8>>':1,'dv::BySerde':1,'Vec<Option<In>>':[]}
# (attributes, kind): what the field's default should be is decided by serde alone
MODE=lambda p: ['','#[serde(default)]',f'#[serde(default = "{p}")]',f'#[serde(default = "{p}", skip_serializing_if = "alib::never")]',f'#[serde(default = "{p}", skip_serializing_if = "dv::always")]','#[serde(default, skip_serializing_if = "dv::is_default")]',f'#[serde(default = "{p}", skip_serializing_if = "dv::is_default")]',
  f'#[serde(default = "{p}", skip_deserializing)]',f'#[serde(default = "{p}", skip_serializing)]',f'#[serde(default = "{p}", rename = "NAME-r")]',f'#[serde(default = "{p}", rename(serialize = "NAME-s", deserialize = "NAME-d"))]',f'#[serde(default = "{p}", serialize_with = "alib::ser_str")]',f'#[serde(default = "{p}", alias = "NAME-x")]',f'#[serde(default = "{p}", serialize_with = "dv::ser_fails_if_debug_has_7")]',f'#[serde(default, serialize_with = "dv::ser_fails_if_debug_has_7")]',f'#[serde(serialize_with = "dv::ser_fails_if_debug_has_7")]',f'#[serde(default, serialize_with = "dv::ser_debug")]',f'#[schemars(title = "t")] #[serde(default = "{p}")]',f'#[serde(default = "{p}", with = "dv::With")]',f'#[serde(default = "{p}", serialize_with = "dv::ser_err_if_debug_has_7", skip_serializing_if = "dv::has_7")]']
def props_of(attrs,name,cont_default):
    """names in the deserialize and serialize schemas, whether serde fills it in, readOnly/writeOnly"""
    d=s=name
    m=re.search(r'rename = "([^"]*)"',attrs)
    if m: d=s=m.group(1)
    m=re.search(r'rename\(serialize = "([^"]*)", deserialize = "([^"]*)"',attrs)
    if m: s,d=m.groups()
    return {'de':None if 'skip_deserializing' in attrs else d,'ser':None if re.search(r'skip_serializing\b(?!_)',attrs) else s,'filled':'default' in attrs or cont_default or 'skip_deserializing' in attrs}
def dprog(name,mk,fields,cont_default,at,vat,base):
    i=f'd{len(dprogs):04}'
    fs=[(a.replace('NAME',f'f{n}'),t,v,f'f{n}') for n,(a,t,v) in enumerate(fields)]
    dprogs.append((i,mk(fs)))
    need=[]
    for a,t,v,nm in fs:
        p=props_of(a,nm,cont_default)
        need.append({**p,'type':t,'attrs':a,'json':JS[t]})
    spec['defaults'].append({'id':i,'name':name,'fields':need,'at':at,'value_at':vat,'base':base})
def body(fs): return ', '.join(f'{a} {nm}: {t}' for a,t,v,nm in fs)
def impl_default(fs): return 'impl Default for T { fn default() -> T { T { '+', '.join(f'{nm}: {v}' for a,t,v,nm in fs)+' } } } '
allf=[(a,t,v) for t,p,v in TY for a in MODE(p)]
plainf=[f for f in allf]
KINDS={
 'struct':(lambda fs: SD+f'struct T {{ {body(fs)} }}',False,'','',0),
 'deny struct':(lambda fs: SD+f'#[serde(deny_unknown_fields)] struct T {{ {body(fs)} }}',False,'','',0),
 'container default':(lambda fs: SD+f'#[serde(default)] struct T {{ {body(fs)} }} '+impl_default(fs),True,'','',0),
 'container default path':(lambda fs: SD+f'#[serde(default = "make")] struct T {{ {body(fs)} }} fn make() -> T {{ T {{ '+', '.join(f'{nm}: {v}' for a,t,v,nm in fs)+' } }',True,'','',0),
 'ext variant':(lambda fs: SD+f'enum T {{ A, V {{ {body(fs)} }} }}',False,'V','V',0),
 'adj variant':(lambda fs: SD+f'#[serde(tag = "t", content = "c")] enum T {{ A, V {{ {body(fs)} }} }}',False,'c','c',0),
 'int variant':(lambda fs: SD+f'#[serde(tag = "t")] enum T {{ A, V {{ {body(fs)} }} }}',False,'int','',0),
 'flattened':(lambda fs: SD+f'struct T {{ #[serde(flatten)] x: X }} '+SD+f'struct X {{ {body(fs)} }}',False,'','',0),
}
for k,(mk,cd,at,vat,_) in KINDS.items():
    # one type's modes together; and all types under one mode
    for n,(t,p,v) in enumerate(TY):
        if k in('flattened','int variant') and t in('u64',): pass
        fs=[(a,t,v) for a in MODE(p)]
        dprog(f'{k}: {t} / {p}',mk,fs,cd,at,vat,k)
    if k=='struct':
        for n in range(len(MODE(''))):
            dprog(f'{k}: mode {n}',mk,[(MODE(p)[n],t,v) for t,p,v in TY],cd,at,vat,k)
DHDR='use schemars::JsonSchema; use serde::{Serialize, Deserialize}; use serde_json::Value; use alib::{self, dv, In}; use std::collections::*;'
n2=emit('y',4,dprogs,DHDR,entry='alib::rt_entry::<T>({id}, {src})',ty='alib::RtEntry')
json.dump(spec,open(f'{OUT}/d06.json','w'))
print(n,n2,len(frames),len(docs))
