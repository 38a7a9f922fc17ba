#!/usr/bin/env python3
"""D05: fields with validation attributes, in every position, attribute family and argument form."""
import itertools, json, re
from genlib import *
progs={}; groups=[]
def prog(src):
    src=src.strip()
    return progs.setdefault(src,f'v{len(progs):05}')
H='#'*4
def rstr(s): return f'r{H}"{s}"{H}'
def num(n,style):
    if style=='str': return f'"{n}"'
    if style=='expr': return f'{n} + 0' if isinstance(n,int) and -2**31<n<2**31 else f'{{ {n}{"" if isinstance(n,float) else "u64" if n>0 else "i64"} }}'
    if style=='const' and isinstance(n,int) and -2**62<n<2**62: return f'alib::N::<{{ {n} }}>::V'
    return f'{n}'
# a constraint is (kind, args)
def items(cs,fam,style):
    """the attribute items for constraints cs in family fam; None where the family has no such item"""
    out=[]
    for k,a in cs:
        extra=', message = "m", code = "c"' if fam=='validate' and style=='message' else ''
        if k in('length','range'):
            out.append(f'{k}('+', '.join(f'{x} = {num(n,style)}' for x,n in a)+extra+')')
        elif k=='pattern':
            e={'expr':f'{{ {rstr(a)} }}','const':f'*alib::re({rstr(a)})'}.get(style,rstr(a))
            if fam=='validate': out.append(f'regex(path = *alib::re({rstr(a)}){extra})')
            elif fam=='garde' or style in('str','const'): out.append(f'pattern({e})')
            else: out.append(f'regex(pattern = {e})')
        elif k=='contains':
            e={'expr':f'String::from({rstr(a)})','const':f'*alib::re({rstr(a)})'}.get(style,rstr(a))
            if fam=='garde' or fam=='schemars' and style in('str','const'): out.append(f'contains({e})')
            else: out.append(f'contains(pattern = {e}{extra})')
        elif k=='format':
            if fam=='validate' and a not in('email','url'): return None
            out.append(a+(f'({extra[2:]})' if extra else ''))
        elif k=='required': out.append('required'+(f'({extra[2:]})' if 0 else ''))
        elif k=='inner':
            if fam=='validate': return None
            i=items(a,fam,style)
            if i is None: return None
            out.append('inner('+', '.join(i)+')')
    return out
def attr(fam,its): return f'#[{fam}({", ".join(its)})] ' if its else ''
# other arguments of the same items, to be overridden
def other(cs):
    out=[]
    for k,a in cs:
        if k=='length': out.append(('length',(('min',7),)))
        elif k=='range': out.append(('range',(('max',0),)))
        elif k=='pattern': out.append(('contains','zz'))
        elif k=='contains': out.append(('pattern','zz'))
        elif k=='format': out.append(('format','url' if a=='email' else 'email'))
        elif k=='inner': out.append(('inner',other(a)))
    return out
def single(cs,fam,style):
    i=items(cs,fam,style)
    return attr(fam,i) if i is not None else attr('schemars',items(cs,'schemars','lit'))
def split(cs):
    i=items(cs,'schemars','lit')
    return ''.join(attr('schemars',[x]) for x in i)
def over(fam,first):
    def f(cs):
        o=items([c for c in other(cs)],fam,'lit')
        if o is None: o=[]; 
        s=attr('schemars',items(cs,'schemars','lit'))
        return s+attr(fam,o) if first else attr(fam,o)+s
    return f
def both(cs):
    v,g=items(cs,'validate','lit'),items(cs,'garde','lit')
    return attr('garde',g)+attr('validate',v) if v is not None and g is not None else single(cs,'garde','lit')
def mixed(cs):
    # some of the items in one family, the others in another
    out=''
    for n,c in enumerate(cs): out+=single([c],('validate','schemars','garde')[n%3],'lit')
    return out
VARIANTS=[('schemars',lambda cs: single(cs,'schemars','lit')),
 ('string arguments',lambda cs: single(cs,'schemars','str')),
 ('expressions',lambda cs: single(cs,'schemars','expr')),
 ('constants',lambda cs: single(cs,'schemars','const')),
 ('reversed',lambda cs: attr('schemars',items(cs,'schemars','lit')[::-1])),
 ('separate attributes',split),
 ('validate',lambda cs: single(cs,'validate','lit')),
 ('validate strings',lambda cs: single(cs,'validate','str')),
 ('validate with message',lambda cs: single(cs,'validate','message')),
 ('validate constants',lambda cs: single(cs,'validate','const')),
 ('garde',lambda cs: single(cs,'garde','lit')),
 ('garde constants',lambda cs: single(cs,'garde','const')),
 ('over validate',over('validate',False)),
 ('before validate',over('validate',True)),
 ('over garde',over('garde',False)),
 ('validate and garde',both),
 ('mixed families',mixed)]
DER='#[derive(JsonSchema)] '
def struct_fields(fs,pre): return ', '.join(f'{pre}{a}f{n}: {t}' for n,(a,t) in enumerate(fs))
def tup_fields(fs,pre): return ', '.join(f'{pre}{a}{t}' for a,t in fs)
POS={
 'named':('obj',lambda f,p: DER+f'struct T {{ {struct_fields(f,p)} }}'),
 'deny':('obj',lambda f,p: DER+f'#[serde(deny_unknown_fields)] struct T {{ {struct_fields(f,p)} }}'),
 'flattened':('obj',lambda f,p: DER+f'struct T {{ #[serde(flatten)] x: X }} '+DER+f'struct X {{ {struct_fields(f,p)} }}'),
 'tuple':('arr',lambda f,p: DER+f'struct T({tup_fields(f,p)});'),
 'newtype':('one',lambda f,p: DER+f'struct T({tup_fields(f,p)});'),
 'transparent':('one',lambda f,p: DER+f'#[serde(transparent)] struct T {{ {struct_fields(f,p)} }}'),
 'ext named':('ext obj',lambda f,p: DER+f'enum T {{ U, V {{ {struct_fields(f,p)} }}, W(bool) }}'),
 'ext tuple':('ext arr',lambda f,p: DER+f'enum T {{ U, V({tup_fields(f,p)}), W(bool) }}'),
 'ext newtype':('ext one',lambda f,p: DER+f'enum T {{ U, V({tup_fields(f,p)}), W(bool) }}'),
 'int named':('int obj',lambda f,p: DER+f'#[serde(tag = "t")] enum T {{ U, V {{ {struct_fields(f,p)} }}, W {{ w: bool }} }}'),
 'adj named':('adj obj',lambda f,p: DER+f'#[serde(tag = "t", content = "c")] enum T {{ U, V {{ {struct_fields(f,p)} }}, W(bool) }}'),
 'adj tuple':('adj arr',lambda f,p: DER+f'#[serde(tag = "t", content = "c")] enum T {{ U, V({tup_fields(f,p)}), W(bool) }}'),
 'adj newtype':('adj one',lambda f,p: DER+f'#[serde(tag = "t", content = "c")] enum T {{ U, V({tup_fields(f,p)}), W(bool) }}'),
 'int newtype':('int merge',lambda f,p: DER+f'#[serde(tag = "t")] enum T {{ U, V({tup_fields(f,p)}), W {{ w: bool }} }}'),
 'flatten':('flat merge',lambda f,p: DER+f'struct T {{ a: u8, {struct_fields(f,p+"#[serde(flatten)] ")} }}'),
 'unt named':('obj',lambda f,p: DER+f'#[serde(untagged)] enum T {{ V {{ {struct_fields(f,p)} }}, W {{ www: bool }} }}'),
 'unt tuple':('arr',lambda f,p: DER+f'#[serde(untagged)] enum T {{ V({tup_fields(f,p)}), W {{ www: bool }} }}'),
 'unt newtype':('one',lambda f,p: DER+f'#[serde(untagged)] enum T {{ V({tup_fields(f,p)}), W {{ www: bool }} }}'),
}
def strip_opt(t):
    m=re.fullmatch(r'Option<(.*)>',t)
    return strip_opt(m.group(1)) if m else t
def group(name,pos,fields,pre='',variants=VARIANTS,markers=True,rt=None):
    """fields: list of (type, constraints)"""
    shape,mk=POS[pos]
    def build(f):
        return prog(mk([((f'#[schemars(extend("x-id" = {n}))] ' if markers else '')+f(cs),t) for n,(t,cs) in enumerate(fields)],pre))
    R=prog(mk([((f'#[schemars(extend("x-id" = {n}))] ' if markers else ''),(strip_opt(t) if any(k=='required' for k,_ in cs) else t)) for n,(t,cs) in enumerate(fields)],pre))
    S=list(dict.fromkeys((build(f),v) for v,f in variants))
    seen=set(); s2=[]
    for p,v in S:
        if p not in seen: seen.add(p); s2.append([p,v])
    groups.append({'name':name,'shape':shape,'r':R,'s':s2,'fields':[{'type':t,'cons':[[k,(a if k!='inner' else a)] for k,a in cs]} for t,cs in fields],'markers':markers})

STR=['String','Option<String>','Box<str>','Cow<\'static, str>','&\'static str','Option<Option<String>>','Rc<String>','PathBuf','Arc<str>','RefCell<String>']
SEQ=['Vec<u8>','Vec<String>','Option<Vec<String>>','Vec<Vec<u8>>','Vec<Option<String>>','BTreeSet<u8>','HashSet<String>','VecDeque<i8>','Box<[String]>','Cow<\'static, [u8]>','LinkedList<bool>','BinaryHeap<u8>','Option<Box<[Option<u8>]>>','&\'static [f64]','Vec<Value>']
UINT=['u8','u16','u32','u64','usize','Option<u8>','Box<u16>','Wrapping<u8>']
SINT=['i8','i16','i32','i64','isize','Option<i32>','Option<Option<i8>>','Cell<i32>']
FLT=['f32','f64','Option<f64>','Mutex<f32>']
MISC=['bool','()','In','Option<In>','BTreeMap<String, u8>','HashMap<String, String>','Vec<In>']
LEN=[(('min',1),),(('max',2),),(('min',1),('max',3)),(('max',3),('min',1)),(('equal',2),),(('min',0),),(('max',0),),(('equal',0),),(('min',2),('max',2))]
URNG=[(('min',1),),(('max',3),),(('min',1),('max',3)),(('max',3),('min',1)),(('min',0),('max',0)),(('min',2),('max',2)),(('max',100),)]
SRNG=[(('min',-2),),(('max',-1),),(('min',-3),('max',5)),(('min',0),),(('min',-1),('max',-1))]
FRNG=[(('min',0.5),),(('max',1.5),),(('min',-1.5),('max',2)),(('min',-0.0),),(('max',1e300),),(('min',2.0),('max',2.5)),(('min',1),('max',3))]
BIG=[('u64',(('max',2**64-1),)),('u64',(('min',2**64-1),)),('u64',(('min',2**63),)),('i64',(('min',-2**63),)),('i64',(('max',2**63-1),)),('i64',(('max',-2**63),)),('u64',(('max',2**53+1),)),('i64',(('min',2**53+1),)),('f64',(('min',2**53),)),('f64',(('max',-1e300),))]
PATS=['^a','b$','a','^\\d+$','^(ab|c)$','^[A-Z]{2}$','\\.','^$','é','"','^https://','']
CONT=['a','','.','a.b','\\','"','é','a b','^a$','\\d']
FMT=['email','url','ip','ipv4','ipv6']
fields=[]
F=lambda t,*cs: fields.append((t,list(cs)))
# every constraint on every type it can stand on
for t in STR:
    for l in LEN: F(t,('length',l))
    for p in PATS: F(t,('pattern',p))
    for c in CONT: F(t,('contains',c))
    for f in FMT: F(t,('format',f))
for t in SEQ:
    for l in LEN: F(t,('length',l))
for t in UINT:
    for r in URNG: F(t,('range',r))
for t in SINT:
    for r in URNG+SRNG: F(t,('range',r))
for t in FLT:
    for r in URNG+SRNG+FRNG: F(t,('range',r))
for t,r in BIG: F(t,('range',r))
# constraints for another JSON type: no effect
for t in STR[:3]+['()','bool']: F(t,('range',(('min',1),('max',2))))
for t in UINT[:2]+['i64','f64','Option<f64>','bool','()']+MISC[4:6]:
    F(t,('length',(('min',1),('max',1)))); F(t,('pattern','^z')); F(t,('contains','z'))
for t in SEQ[:5]+MISC: F(t,('range',(('min',1),('max',2))))
for t in SEQ[:3]: F(t,('pattern','^z')); F(t,('contains','z'))
for t in ['String','u8','bool','BTreeMap<String, u8>']: F(t,('inner',[('length',(('min',9),)),('range',(('min',9),)),('pattern','z')]))
# items
INNER=[('length',(('min',1),('max',2))),('length',(('equal',2),)),('range',(('min',1),)),('range',(('min',1),('max',3))),('pattern','^a'),('contains','.'),('format','email'),('format','ipv6')]
for t in [x for x in SEQ if 'Value' not in x]+['[String; 2]','[u8; 3]','[Option<i32>; 1]','Vec<f64>','Vec<Vec<String>>','Option<Vec<Vec<u8>>>']:
    for i in INNER:
        F(t,('inner',[i]))
    F(t,('inner',[INNER[0],INNER[4]]))
    if 'Set' not in t and '[' not in t:
        F(t,('length',(('min',1),('max',2))),('inner',[INNER[0],INNER[2]]))
    F(t,('inner',[('inner',[INNER[0]])])); F(t,('inner',[('inner',[INNER[3]])])); F(t,('inner',[('length',(('max',1),)),('inner',[('pattern','^a')])]))
# pairs
for t in STR[:4]:
    for l in LEN[:3]:
        for p in (('pattern','^a'),('contains','b'),('format','email'),('range',(('min',1),))):
            F(t,('length',l),p)
    F(t,('length',LEN[2]),('contains','a'),('format','url')); F(t,('format','ipv4'),('pattern','a'))
for t in UINT[:2]+FLT[1:3]: F(t,('range',(('min',1),)),('length',(('max',2),)))
def chunks(l,n): return [l[i:i+n] for i in range(0,len(l),n)]
for n,c in enumerate(chunks(fields,25)): group(f'named {n}','named',c)
# required: as though the field were a T
req=[]
for t in ['Option<String>','Option<u8>','Option<Vec<u8>>','Option<f64>','Option<bool>','Option<In>','Option<Option<String>>','Option<BTreeMap<String, u8>>','Option<()>','Option<Vec<Option<u8>>>','Option<[u8; 2]>','String','In','u8']:
    req.append((t,[('required',None)]))
for t in ['Option<String>','Option<Option<String>>']:
    for c in (('length',LEN[2]),('pattern','^a'),('contains','a'),('format','email')): req.append((t,[('required',None),c]))
for t in ['Option<Vec<String>>','Option<Box<[u8]>>']:
    for c in (('length',LEN[2]),('inner',[INNER[0]]),('inner',[INNER[3]])): req.append((t,[('required',None),c]))
for c in SRNG: req.append(('Option<i32>',[('required',None),('range',c)]))
for pos in ('named','deny','flattened','tuple','ext named','int named','adj named','unt named'):
    for n,c in enumerate(chunks(req,12)): group(f'required {pos} {n}',pos,c)
for pre in ('#[serde(default)] ','#[schemars(skip_serializing_if = "alib::never")] ','#[serde(default, skip_serializing_if = "alib::never")] ','/// doc\n'):
    q=[(t,cs) for t,cs in req if not (re.fullmatch('Option<Option.*',t))]
    for n,c in enumerate(chunks(q,12)): group(f'required {pre.strip()} {n}','named',c,pre=pre,variants=VARIANTS[:1]+VARIANTS[6:7]+VARIANTS[10:11])
# inside the type itself
for pos in ('ext named','adj named','int named'):
    group(f'required recursive {pos}',pos,[('Option<Box<T>>',[('required',None)]),('Option<Vec<T>>',[('required',None)])])
for pos in ('ext newtype','adj newtype'): group(f'required recursive {pos}',pos,[('Option<Box<T>>',[('required',None)])])
# every position
REP=[('String',[('length',LEN[2])]),('Option<String>',[('length',LEN[4])]),('String',[('pattern','^a')]),('Option<String>',[('contains','a.b')]),('String',[('format','email')]),('Option<String>',[('format','ip')]),('Cow<\'static, str>',[('length',LEN[0]),('pattern','b$')]),
 ('Vec<String>',[('length',LEN[1])]),('Option<Vec<u8>>',[('length',LEN[2])]),('Vec<String>',[('inner',[INNER[0],INNER[4]])]),('[u8; 3]',[('inner',[INNER[3]])]),('Vec<Vec<u8>>',[('length',LEN[0]),('inner',[('length',LEN[1]),('inner',[INNER[2]])])]),
 ('u8',[('range',URNG[2])]),('Option<u8>',[('range',URNG[0])]),('i32',[('range',SRNG[2])]),('Option<i64>',[('range',SRNG[1])]),('f64',[('range',FRNG[2])]),('Option<f64>',[('range',FRNG[0])]),('bool',[('range',URNG[0])]),('BTreeMap<String, u8>',[('length',LEN[0])])]
REQN=[('Option<String>',[('required',None)]),('Option<u8>',[('required',None),('range',URNG[0])]),('Option<In>',[('required',None)])]
for pos in POS:
    if pos=='named': continue
    if POS[pos][0].endswith('merge'):
        group(f'{pos}: required',pos,[REQN[2]],markers=False)
        group(f'{pos}: required, other',pos,[('Option<Adj>',[('required',None)])],markers=False)
        continue
    if POS[pos][0].endswith('one'):
        for t,cs in REP+REQN: group(f'{pos}: {t}: {cs}',pos,[(t,cs)])
    else:
        group(f'{pos}',pos,REP)
        group(f'{pos} without markers',pos,REP,markers=False,variants=VARIANTS[:1]+VARIANTS[6:7]+VARIANTS[10:11])
# beside other attributes
for pre in ('#[serde(default)] ','/// doc\n','#[serde(skip_serializing_if = "alib::never")] ','#[schemars(title = "tt")] ','#[deprecated] ','#[schemars(example = 1)] '):
    group(f'with {pre.strip()}','named',[x for x in REP if not ('default' in pre and 'Cow' in x[0])],pre=pre,variants=VARIANTS[:1]+VARIANTS[6:7]+VARIANTS[10:11])
for w,ts in (('String',['length','pattern','contains','format']),('Vec<u8>',['length','inner']),('Option<i32>',['range'])):
    f=[('In',cs) for t,cs in REP if all(k in ts for k,_ in cs)]
    group(f'with = {w}','named',f,pre=f'#[schemars(with = "{w}")] ',variants=VARIANTS[:1]+VARIANTS[6:7]+VARIANTS[10:11])
for w,ts in (('alib::schema_str',['length','pattern','contains','format']),('alib::schema_nums',['length','inner']),('alib::schema_int',['range'])):
    f=[('In',cs) for t,cs in REP if all(k in ts for k,_ in cs)]
    group(f'schema_with = {w}','named',f,pre=f'#[schemars(schema_with = "{w}")] ',variants=VARIANTS[:1]+VARIANTS[6:7]+VARIANTS[10:11])
# contains: all short strings over ASCII punctuation and a few others
ALPHA=[chr(c) for c in range(32,127) if not chr(c).isalnum()]+['a','\n','é']
C=ALPHA+[a+b for a in ALPHA for b in ALPHA]
def rstr2(s): return '"'+''.join({'\n':'\\n','"':'\\"','\\':'\\\\'}.get(ch,ch) for ch in s)+'"'
for n,c in enumerate(chunks(C,60)):
    src=DER+'struct T { '+', '.join(f'#[schemars(contains(pattern = {rstr2(s)}))] f{i}: String' for i,s in enumerate(c))+' }'
    groups.append({'name':f'contains {n}','contains':c,'s':[[prog(src),'schemars']],'alphabet':ALPHA})
n=emit('v',8,[(i,s) for s,i in progs.items()],header='use schemars::JsonSchema; use alib::*; use std::{borrow::Cow, rc::Rc, sync::{Arc, Mutex}, cell::{Cell, RefCell}, path::PathBuf, collections::*, num::*}; use serde_json::Value;')
write(f'{OUT}/d05.json',json.dumps(groups))
print(n,'programs',len(groups),'groups',sum(len(g.get('fields',g.get('contains'))) for g in groups),'fields')
