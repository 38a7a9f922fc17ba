#!/usr/bin/env python3
"""Generates the type programs for the derive checks D01-D03 into /verif/gen (git-ignored).
Exhaustive products of shapes x attributes x positions; see DESIGN.md for the families."""
import itertools, json, os, re, sys
OUT='/verif/gen'; NCRATES=8
progs=[]; seen=set()

class F:  # field
    def __init__(s,name,ty,attrs=''): s.name,s.ty,s.attrs=name,ty,attrs
class V:  # variant
    def __init__(s,name,shape,fields=(),attrs=''): s.name,s.shape,s.fields,s.attrs=name,shape,list(fields),attrs
DER='#[derive(Serialize, Deserialize, JsonSchema, Clone)]'
def sattr(a): return f'#[serde({a})] ' if a else ''

def fields_src(fs,named,vis=''):
    if named: return '{ '+', '.join(f'{sattr(f.attrs)}{vis}{f.name}: {f.ty}' for f in fs)+' }'
    return '('+', '.join(f'{sattr(f.attrs)}{vis}{f.ty}' for f in fs)+')'
def build(path,fs,shape):
    """expression generating all field-value combinations pushed into o"""
    lp=''.join(f'for x{i} in <{f.ty} as Vals>::vals() {{ ' for i,f in enumerate(fs))
    if shape=='unit': e=path
    elif shape=='named': e=path+' { '+', '.join(f'{f.name}: x{i}.clone()' for i,f in enumerate(fs))+' }'
    else: e=path+'('+', '.join(f'x{i}.clone()' for i in range(len(fs)))+')'
    return lp+'o.push((@,ser('+e+')));'+' }'*len(fs)

def add(id,src,vals,hints):
    assert id not in seen,id
    if re.search(r'\bInF|NeD',src):
        hints=merge(hints,{'flags':['strict','merged']})
        if 'InFm' in src and 'deny' in src: hints=merge(hints,{'flags':['sermismatch','loose']})
    seen.add(id); progs.append((id,src,vals,hints))

def struct(id,fs,cattr='',shape='named',extra='',hints=None,derive=DER):
    if shape=='unit': body=';'
    elif shape=='named': body=' '+fields_src(fs,True)
    else: body=fields_src(fs,False)+';'
    src=f'{extra}{derive} {sattr(cattr)}struct T{body}'
    add(id,src,build('T',fs,shape).replace('@','0'),hints or {})
def enum(id,vs,cattr='',hints=None,extra='',noval=()):
    parts=[];vals=''
    for i,v in enumerate(vs):
        b='' if v.shape=='unit' else fields_src(v.fields,v.shape=='named')
        parts.append(f'{sattr(v.attrs)}{v.name}{" " if v.shape=="named" else ""}{b}')
        if v.name not in noval: vals+=build('T::'+v.name,v.fields,v.shape).replace('@',str(i))+'\n'
    src=f'{extra}{DER} {sattr(cattr)}enum T {{ {", ".join(parts)} }}'
    add(id,src,vals,hints or {})

DEFAULT_IMPL='impl Default for T { fn default() -> T { T { %s } } } '
LIT={'u8':'5','bool':'true','String':'"df".to_string()','Option<u8>':'Some(5)'}
def dflt(ty): return LIT.get(ty,f'<{ty}>::vals().pop().unwrap()')
def with_default(fs): return DEFAULT_IMPL%', '.join(f'{f.name}: {dflt(f.ty)}' for f in fs)

TYPES=['u8','String','bool','()','Option<u8>','Vec<u8>','In1','InDeny','InDef','Option<In1>','Ue','Option<Ue>','Box<u8>','(u8, bool)','M8','Value','OO','Option<()>','Xe','Ie','Ae','Ne','NeU','Us','Nt','Ts','Option<Value>','Vec<In1>','Tr','XeD','XeU','InFe','InFeD','InFo','InFm','NeD']
HASDEF={'u8','String','bool','()','Option<u8>','Vec<u8>','In1','InDef','Option<In1>','Ue','Option<Ue>','Box<u8>','(u8, bool)','M8','Value','OO','Option<()>','Xe','Ts','Option<Value>','Vec<In1>'}
noarr=lambda ty:['noarr'] if re.search(r'In|Ts|Ie|Tr',ty) else []
# attr -> hints
def fattrs(ty,name='fo_o'):
    A=[('',{}),
       ('rename = "ren"',{}),
       ('rename(serialize = "rs", deserialize = "rd")',{'map':{'rd':'rs'},'ser_absent':['rd'],'de_absent':['rs']}),
       ('rename(serialize = "rs")',{'map':{name:'rs'},'de_absent':['rs']}),
       ('rename(deserialize = "rd")',{'map':{'rd':name},'ser_absent':['rd']}),
       ('alias = "ali"',{'alias':['ali']}),
       ('skip_serializing',{'ser_absent':[name],'flags':noarr(ty)})]
    if ty in HASDEF:
        A+=[('default',{}),
            ('skip',{'ser_absent':[name],'de_absent':[name],'keys':[name]}),
            ('skip_deserializing',{'de_absent':[name],'flags':['asym']}),
            ('default, skip_serializing_if = "never"',{}),
            ('default, rename(serialize = "rs", deserialize = "rd")',{'map':{'rd':'rs'},'ser_absent':['rd'],'de_absent':['rs']}),
            ('default, skip_serializing',{'ser_absent':[name],'flags':noarr(ty)})]
    if ty=='u8':
        A+=[('default = "seven"',{}),('skip_serializing_if = "is_zero"',{'flags':['maybe']}),('default = "seven", skip_serializing_if = "is_zero"',{'flags':['maybe']}),
            ('with = "AsStr"',{'flags':['nofilter','loose']}),('serialize_with = "AsStr::serialize"',{'flags':['nofilter','loose','sermismatch']}),
            ('default, with = "AsStr"',{'flags':['nofilter','loose']}),
            ('default, with = "AsStr", skip_serializing_if = "is_zero"',{'flags':['nofilter','loose','maybe']}),
            ('skip_serializing, default = "seven"',{'ser_absent':[name]}),('skip_deserializing, default = "seven"',{'de_absent':[name],'flags':['asym']}),
            ('skip, default = "seven"',{'ser_absent':[name],'de_absent':[name],'keys':[name]})]
    if ty=='In1': A+=[('with = "AsArr"',{'flags':['nofilter','loose']}),('default, with = "AsArr"',{'flags':['nofilter','loose']})]
    if ty.startswith('Option') or ty=='OO':
        A+=[('skip_serializing_if = "Option::is_none"',{'flags':['maybe']}),('default, skip_serializing_if = "Option::is_none"',{'flags':['maybe']})]
    if ty=='Option<u8>': A+=[('default = "some_seven"',{}),('default = "some_seven", skip_serializing_if = "Option::is_none"',{'flags':['maybe']})]
    if ty=='String': A+=[('skip_serializing_if = "String::is_empty"',{'flags':['maybe']}),('default, skip_serializing_if = "String::is_empty"',{'flags':['maybe']})]
    if ty=='Vec<u8>': A+=[('default, skip_serializing_if = "Vec::is_empty"',{'flags':['maybe']})]
    return A
def merge(*hs):
    o={}
    for h in hs:
        for k,v in h.items():
            if isinstance(v,dict): o.setdefault(k,{}).update(v)
            else: o[k]=o.get(k,[])+[x for x in v if x not in o.get(k,[])]
    return o
def ok_default(attrs): return True

# --- S1: one interesting field, beside a plain one, under container attributes
CA=[('',{}),('deny_unknown_fields',{}),('rename_all = "camelCase"',{}),('rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "PascalCase")',{'ren':1})]
for ty in TYPES:
    for at,h in fattrs(ty):
        for ca,ch in CA:
            if 'rename' in ca and ty not in ('u8','Option<u8>'): continue
            h2=h
            if 'rename' in ca:
                # names change: recompute the absent lists
                nm=lambda d:{'':'fo_o'}.get(d)
                if ca.startswith('rename_all ='): S=Dn='foO'
                else: S,Dn='FO-O','FoO'
                h2={k:v for k,v in h.items()}
                m={}
                if 'rename =' in at: s=d='ren'
                else:
                    s='rs' if 'serialize = "rs"' in at else S
                    d='rd' if 'deserialize = "rd"' in at else Dn
                m={d:s}
                if '(' in ca: m['bA_r']='x'
                if '(' in ca: m={d:s,'BaR':'BA-R'}
                h2['map']=m
                h2['ser_absent']=[{'fo_o':s}.get(x,x) for x in h.get('ser_absent',[])]
                h2['de_absent']=[{'fo_o':d}.get(x,x) for x in h.get('de_absent',[])]
                h2['keys']=[{'fo_o':d}.get(x,x) for x in h.get('keys',[])]
                if '(' in ca: h2=merge(h2,{'ser_absent':['BaR'],'de_absent':['BA-R']})
            struct(f'S1|{ca}|{ty}|{at}',[F('fo_o',ty,at),F('ba_r','bool')],ca,hints=h2)
# container default (a struct-level Default with distinctive values), with and without deny
for ty in TYPES:
    for at,h in fattrs(ty):
        if ty not in ('u8','Option<u8>','String','In1','Ue','Value','()','Option<In1>') : continue
        fs=[F('fo_o',ty,at),F('ba_r','bool')]
        for ca in ('default','default, deny_unknown_fields'):
            struct(f'S1d|{ca}|{ty}|{at}',fs,ca,extra=with_default(fs),hints=h)
        struct(f'S1p|{ty}|{at}',fs,'default = "T::make"',extra='impl T { fn make() -> T { T { %s } } } '%', '.join(f'{f.name}: {dflt(f.ty)}' for f in fs),hints=h)
# --- S2: pairs of attributed fields
P2=[(t,a,h) for t in ('u8','Option<u8>') for a,h in fattrs(t) if a in ('','rename = "ren"','default','skip','skip_serializing','skip_deserializing','alias = "ali"','default = "seven"','skip_serializing_if = "is_zero"','default, skip_serializing_if = "Option::is_none"','rename(serialize = "rs", deserialize = "rd")','with = "AsStr"')]
for (t1,a1,h1),(t2,a2,h2) in itertools.product(P2,P2):
    if 'ren"' in a1 and 'ren"' in a2: continue
    if a1 and a1==a2 and ('rename' in a1 or 'alias' in a1): continue
    ren=lambda h,n: json.loads(json.dumps(h).replace('"fo_o"','"%s"'%n))
    struct(f'S2|{t1}|{a1}|{t2}|{a2}',[F('one',t1,a1),F('two',t2,a2)],hints=merge(ren(h1,'one'),ren(h2,'two')))
# --- case conversions of fields and variants
for c in ['lowercase','UPPERCASE','PascalCase','camelCase','snake_case','SCREAMING_SNAKE_CASE','kebab-case','SCREAMING-KEBAB-CASE']:
    struct(f'SC|{c}',[F('foo_bar1','u8'),F('r#type','u8'),F('_x','Option<u8>'),F('aB','Option<bool>')],f'rename_all = "{c}"')
    for tg in ['','tag = "t", ','tag = "t", content = "c", ']:
        enum(f'EC|{c}|{tg}',[V('FooBar','unit'),V('HTTPGet2','newtype',[F('0','In1')]),V('A','named',[F('foo_bar','u8')])],f'{tg}rename_all = "{c}"')
        enum(f'ECf|{c}|{tg}',[V('FooBar','unit'),V('A','named',[F('foo_bar','u8'),F('baz','u8','rename = "ren"')])],f'{tg}rename_all_fields = "{c}"')
        enum(f'ECv|{c}|{tg}',[V('FooBar','unit'),V('A','named',[F('foo_bar','u8'),F('baz','u8','rename = "ren"')],f'rename_all = "{c}"')],f'{tg}rename_all_fields = "UPPERCASE"')
# --- tuple structs
TA=[('',{}),('skip_serializing',{'flags':['asym']}),('skip_deserializing',{'flags':['asym']}),('skip',{}),('default',{})]
for t1,t2 in itertools.product(['u8','Option<u8>','In1'],repeat=2):
    for (a1,h1),(a2,h2) in itertools.product(TA,TA):
        if a1=='default' and a2 in ('',"skip_serializing"): continue  # serde requires defaults at the end
        struct(f'TS|{t1}|{a1}|{t2}|{a2}',[F('0',t1,a1),F('1',t2,a2)],shape='tuple',hints=merge(h1,h2))
for t in TYPES:
    struct(f'TS3|{t}',[F('0','u8'),F('1',t),F('2','bool')],shape='tuple')
struct('TS3d|default',[F('0','u8'),F('1','u8'),F('2','bool')],'default',shape='tuple',extra='impl Default for T { fn default() -> T { T(1,2,true) } } ')
struct('TS3d|dd',[F('0','u8'),F('1','u8','default'),F('2','bool','default')],shape='tuple')
struct('TS3d|with',[F('0','u8','with = "AsStr"'),F('1','u8'),F('2','bool')],shape='tuple',hints={'flags':['nofilter','loose']})
struct('TS0|',[],shape='tuple'); struct('US|',[],shape='unit'); struct('S0|',[]); struct('S0|deny',[],'deny_unknown_fields')
struct('S0|tag',[],'tag = "t"',hints={'keys':['t'],'tags':['T']})
# --- newtype structs
for t in TYPES:
    struct(f'NT|{t}',[F('0',t)],shape='tuple')
    struct(f'NTt|{t}',[F('0',t)],'transparent',shape='tuple')
    struct(f'NSt|{t}',[F('a',t)],'transparent')
    if t in HASDEF:
        struct(f'NSt2|{t}',[F('a',t),F('b','u8','skip')],'transparent')
        struct(f'NTt2|{t}',[F('0','u8','skip'),F('1',t)],'transparent',shape='tuple')
        for a in ('skip','skip_serializing','skip_deserializing','default'):
            struct(f'NTa|{t}|{a}',[F('0',t,a)],shape='tuple',hints={'flags':['asym']} if a!='default' else {})
struct('NTw|',[F('0','u8','with = "AsStr"')],shape='tuple',hints={'flags':['nofilter','loose']})
struct('NTwt|',[F('0','u8','with = "AsStr"')],'transparent',shape='tuple',hints={'flags':['nofilter','loose']})
# --- struct tag
for ca in ['tag = "t"','tag = "t", deny_unknown_fields','tag = "t", rename = "Renamed"','tag = "t", default']:
    fs=[F('a','u8'),F('b','Option<u8>')]
    struct(f'ST|{ca}',fs,ca,extra=with_default(fs) if 'default' in ca else '',hints={'keys':['t'],'tags':['T','Renamed'],'flags':['tagged_struct']})
# --- conversions
CONV='impl From<T> for In1 { fn from(t: T) -> In1 { In1 { s: t.a.to_string(), n: None } } } impl From<In1> for T { fn from(i: In1) -> T { T { a: i.s.len() as u8 } } } '
TRY='impl From<T> for In1 { fn from(t: T) -> In1 { In1 { s: t.a.to_string(), n: None } } } impl TryFrom<In1> for T { type Error = String; fn try_from(i: In1) -> Result<T, String> { if i.s.is_empty() { Err("empty".into()) } else { Ok(T { a: 1 }) } } } '
for ca,ex,fl in [('from = "In1"',CONV,['nofilter']),('into = "In1"',CONV,['nofilter']),('from = "In1", into = "In1"',CONV,[]),('try_from = "In1"',TRY,['nofilter','loose']),('try_from = "In1", into = "In1"',TRY,['loose']),('from = "In1", deny_unknown_fields',CONV,['nofilter'])]:
    struct(f'CV|{ca}',[F('a','u8')],ca,extra=ex,hints={'flags':fl+['asym','conv']})
enum('CVe|from',[V('Aa','unit'),V('Bb','newtype',[F('0','u8')])],'from = "Ue", into = "Xe"',extra='impl From<Ue> for T { fn from(_: Ue) -> T { T::Aa } } impl From<T> for Xe { fn from(_: T) -> Xe { Xe::Nb(1) } } ',hints={'flags':['nofilter','asym','conv','valsonly'],'seeds':['Aa','Bb']})
# --- enums
TAG={'ext':'','int':'tag = "t"','adj':'tag = "t", content = "c"','unt':'untagged'}
WRAP={'ext':[{'Va':'@'}],'int':[],'adj':[{'t':'Va','c':'@'}],'unt':[]}
NEWTYPES=['u8','String','In1','InDeny','InDef','In2','Option<u8>','Option<In1>','Ue','Xe','XeS','Ie','IeD','Ae','Ne','NeU','M8','MV','Us','()','Box<In1>','Value','Nt','NtIn','Ts','Tr','Vec<u8>','(u8, bool)','Option<()>','Req1','XeD','XeU','InFe','InFeD','InFo','InFm','NeD','Box<InFeD>','Option<InFe>']
SHAPES=[('unit','unit',[])]+[('n:'+t,'newtype',[F('0',t)]) for t in NEWTYPES]+[
 ('t2','tuple',[F('0','u8'),F('1','bool')]),('t0','tuple',[]),('t2o','tuple',[F('0','u8'),F('1','Option<In1>')]),
 ('s0','named',[]),('s1','named',[F('fo_o','u8')]),('s2','named',[F('a','u8'),F('b','Option<u8>')]),
 ('sd','named',[F('a','u8'),F('b','u8','default')]),('ss','named',[F('a','u8'),F('b','u8','skip')]),
 ('sss','named',[F('a','u8','skip_serializing'),F('b','u8','skip_deserializing')]),
 ('sif','named',[F('a','u8'),F('b','Option<u8>','skip_serializing_if = "Option::is_none"')]),
 ('srn','named',[F('a','u8','rename(serialize = "rs", deserialize = "rd")')]),
 ('sfl','named',[F('a','u8'),F('b','In1','flatten')]),('sfo','named',[F('a','u8'),F('b','Option<Req1>','flatten')]),
 ('sfm','named',[F('a','u8'),F('b','M8','flatten')]),
 ('nskip','newtype',[F('0','u8','skip')]),('nsd','newtype',[F('0','u8','skip_deserializing')]),('nss','newtype',[F('0','u8','skip_serializing')]),
 ('t2s','tuple',[F('0','u8','skip'),F('1','bool')]),('t2sd','tuple',[F('0','u8','skip_deserializing'),F('1','bool')]),('t2d','tuple',[F('0','u8'),F('1','u8','default')]),
 ('nw','newtype',[F('0','u8','with = "AsStr"')]),('sw','named',[F('a','u8','with = "AsStr"')])]
def shape_hints(n):
    h={}
    if n in ('ss',): h={'keys':[]}
    if n in('sss','nsd','nss','t2s','t2sd','nskip'): h={'flags':['asym']}
    if n=='srn': h={'map':{'rd':'rs'}}
    if n in('nw','sw'): h={'flags':['nofilter','loose']}
    if n in('sif',): h={'flags':['maybe']}
    if n in('sfo','n:Option<In1>'): h={'flags':['strict','maybe'] if n=='sfo' else []}
    return h
INT_BAD=lambda n: n.startswith('t') and n[0:1]=='t' and n!='t0x' # internally tagged tuple variants do not compile
def compiles(tag,n,shape,fields):
    if tag=='int' and shape=='tuple': return False
    return True
NOTOBJ={'n:'+t for t in('u8','String','Option<u8>','Vec<u8>','(u8, bool)','Option<()>','Nt','Ts','NeU')}|{'nskip','nsd','nss'}
MERGED={'n:'+t for t in('()','Us','Xe','XeD','XeU','XeS','Ue','IeD','Ae')}
def int_hints(tag,*vs):
    """internally tagged enums: variants whose content cannot be an object, or is merged loosely"""
    if tag=='adj':  # serde itself cannot read these back
        bad=[t for n,t in vs if n in('nskip','nsd')]
        return {'badtags':bad} if bad else {}
    if tag!='int': return {}
    h={}
    bad=[t for n,t in vs if n in NOTOBJ]
    if bad: h['badtags']=bad
    if any(n in MERGED for n,_ in vs): h['flags']=['merged']
    return h
def tags_of(tag): return {'ext':[],'int':['Va','Zz'],'adj':['Va','Zz'],'unt':[]}[tag]
VATT=[('',{}),('rename = "ren"',{'tags':['ren']}),('rename(serialize = "rs1", deserialize = "rd1")',{'tags':['rs1','rd1'],'map':{'rd1':'rs1'},'ser_absent':['rd1'],'de_absent':['rs1']}),
 ('alias = "ali"',{'alias':['ali']}),('skip',{'ser_absent':['Va'],'de_absent':['Va'],'tags':['Va']}),
 ('skip_serializing',{'ser_absent':['Va'],'tags':['Va']}),('skip_deserializing',{'de_absent':['Va'],'tags':['Va'],'flags':['asym']})]
for tag,ta in TAG.items():
    for n,shape,fs in SHAPES:
        if not compiles(tag,n,shape,fs): continue
        for at,h in VATT:
            if tag=='unt' and at and 'skip' not in at: continue
            for ca in ['','deny_unknown_fields']:
                if ca and at and n not in ('unit','n:In1','s1','n:u8','sfl'): continue
                if tag=='int' and n in('nw',): continue
                c=', '.join(x for x in (ta,ca) if x)
                if ca and n=='sfm': continue
                hh=merge({'tags':tags_of(tag),'wraps':json.loads(json.dumps(WRAP[tag]).replace('"Va"','"ren"' if at.startswith('rename =') else '"rd1"' if 'rd1' in at else '"Va"'))},h,shape_hints(n),int_hints(tag,(n,'Va'),(n,'ren'),(n,'rd1'),(n,'rs1')))
                if tag=='unt' and 'skip' in at: hh={k:v for k,v in hh.items() if k not in('ser_absent','de_absent','tags')}
                # "Va" must not occur in a skipped direction; names of untagged variants never do
                enum(f'E1|{tag}|{n}|{at}|{ca}',[V('Va',shape,fs,at),V('Zz','unit')],c,hints=hh,noval=('Va',) if at in('skip','skip_serializing') else ())
# every variant skipped in a direction; single variants; empty tag collisions
for tag,ta in TAG.items():
    for n,shape,fs in SHAPES:
        if not compiles(tag,n,shape,fs) or (tag=='int' and n=='nw'): continue
        if n in ('unit','n:u8','n:In1','s1','n:Ue','n:Us','n:()','s0','n:Option<u8>','n:M8','n:Value'):
            enum(f'EO|{tag}|{n}',[V('Va',shape,fs)],ta,hints=merge({'tags':tags_of(tag),'wraps':WRAP[tag]},int_hints(tag,(n,'Va'))))
            enum(f'EOd|{tag}|{n}',[V('Va',shape,fs)],', '.join(x for x in(ta,'deny_unknown_fields') if x),hints=merge({'tags':tags_of(tag),'wraps':WRAP[tag]},int_hints(tag,(n,'Va'))))
# pairs of shapes
SH2=[s for s in SHAPES if s[0] in('unit','n:u8','n:String','n:In1','n:InDeny','n:Option<u8>','n:Ue','n:Us','n:()','t2','t0','s0','s1','s2','sfl','n:M8','n:Value','n:Xe','n:Ie','n:Req1')]
for tag,ta in TAG.items():
    for (n1,s1,f1),(n2,s2,f2) in itertools.product(SH2,SH2):
        if not compiles(tag,n1,s1,f1) or not compiles(tag,n2,s2,f2): continue
        if n1>n2 and tag not in('unt',): continue
        enum(f'E2|{tag}|{n1}|{n2}',[V('Va',s1,f1),V('Vb',s2,f2)],ta,hints=merge({'tags':[] if tag in('ext','unt') else ['Va','Vb'],'wraps':WRAP[tag]},int_hints(tag,(n1,'Va'),(n2,'Vb'))))
# untagged variants in tagged enums; `other`; variant with
for tag in ('ext','int','adj'):
    ta=TAG[tag]
    for n,s,fs in SH2:
        if not compiles(tag,n,s,fs): continue
        for m,s2,f2 in [x for x in SH2 if x[0] in('unit','n:In1','s1')]:
            for ca in ('','deny_unknown_fields'):
                if ca and m!='unit': continue
                c=', '.join(x for x in (ta,ca) if x)
                enum(f'EU|{tag}|{m}|{n}|{ca}',[V('Va',s2,f2),V('Vu',s,fs,'untagged')],c,hints={'tags':tags_of(tag),'wraps':WRAP[tag]})
    for n,s,fs in SH2:
        if not compiles(tag,n,s,fs): continue
        enum(f'EX|{tag}|{n}',[V('Va',s,fs),V('Oth','unit',(),'other')],ta,hints={'tags':tags_of(tag)+['Oth'],'wraps':WRAP[tag],'flags':['other']} if tag!='int' else merge({'tags':tags_of(tag)+['Oth'],'flags':['other']},int_hints(tag,(n,'Va'))))
    enum(f'EUs|{tag}',[V('Va','unit'),V('Vs','named',[F('a','u8')],'skip_serializing'),V('Vu','newtype',[F('0','In1')],'untagged')],ta,hints={'tags':tags_of(tag)+['Vs'],'wraps':WRAP[tag],'ser_absent':['Vs']},noval=('Vs',))
for tag,ta in TAG.items():
    for n,sh,ty in [('nt','newtype',[F('0','u8')])]:
        if tag=='int': continue
        enum(f'EW|{tag}|{n}',[V('Va',sh,ty,'with = "AsStr"'),V('Zz','unit')],ta,hints={'tags':tags_of(tag),'wraps':WRAP[tag],'flags':['nofilter','loose']})
enum('EW|int',[V('Va','newtype',[F('0','In1')],'with = "PassIn"'),V('Zz','unit')],'tag = "t"',hints={'tags':['Va','Zz']})
# attributes on a lone unit variant, and on two
for tag,ta in TAG.items():
    for n,shape,fs in [x for x in SHAPES if x[0] in('n:u8','n:In1','s1','t2','s0','n:M8')]:
        if not compiles(tag,n,shape,fs) or (tag=='int' and n=='n:u8'): continue
        for at,h in VATT:
            if tag=='unt' and at and 'skip' not in at: continue
            for k in (1,2):
                hh=merge({'tags':tags_of(tag)+['Zz','ZzB'],'wraps':WRAP[tag]},json.loads(json.dumps(h).replace('"Va"','"Zz"')))
                if tag=='unt' and 'skip' in at: hh={a:v for a,v in hh.items() if a not in('ser_absent','de_absent','tags')}
                enum(f'EZ|{tag}|{n}|{at}|{k}',[V('Va',shape,fs),V('Zz','unit',(),at)]+([V('ZzB','unit')] if k==2 else []),ta,hints=hh,noval=('Zz',) if at in('skip','skip_serializing') else ())
# enum-wide naming
for tag in('ext','int','adj'):
    enum(f'EN|{tag}|ra2',[V('FooBar','unit'),V('BazQ','named',[F('a_b','u8')])],', '.join(x for x in(TAG[tag],'rename_all(serialize = "snake_case", deserialize = "UPPERCASE")') if x),hints={'tags':['foo_bar','FOOBAR','baz_q','BAZQ'],'map':{'FOOBAR':'foo_bar','BAZQ':'baz_q'},'ser_absent':['FOOBAR','BAZQ'],'de_absent':['foo_bar','baz_q'],'wraps':[{'BAZQ':{'a_b':'@'}}] if tag=='ext' else WRAP[tag]})
    enum(f'EN|{tag}|raf2',[V('FooBar','unit'),V('BazQ','named',[F('a_b','u8')])],', '.join(x for x in(TAG[tag],'rename_all_fields(serialize = "camelCase", deserialize = "kebab-case")') if x),hints={'tags':['FooBar','BazQ'],'map':{'a-b':'aB'},'ser_absent':['a-b'],'de_absent':['aB'],'wraps':[{'BazQ':{'a-b':'@'}}] if tag=='ext' else [{'t':'BazQ','c':{'a-b':'@'}},{'t':'BazQ','a-b':'@'}]})
# --- flatten
FT=['In1','InDeny','InDef','In2','Option<In1>','Option<InDeny>','M8','MV','Value','Xe','XeS','Ie','IeD','Ae','Ne','Ue','Option<Xe>','Option<XeS>','Option<Ie>','Option<Ae>','Option<Ne>','Option<Ue>','Box<In1>','()','Us','Option<M8>','Req1','Option<Req1>','Tr','NtIn','Box<Xe>','Option<Box<In1>>','XeD','XeU','Option<XeD>','Option<XeU>','InFe','InFeD','InFo','InFm','NeD','Option<InFe>','Option<InFeD>','Option<InFo>','Option<NeD>','Box<InFe>']
def fl_hints(*ts):
    fl=[]
    if any('Option' in t or t in('Ue','Xe','XeS','Box<Xe>','XeD','XeU') for t in ts): fl+=['strict']
    if any(re.search(r'\b(Ue|Xe|XeD|XeU|XeS|IeD|Ae|Us)\b|\(\)',t) for t in ts): fl+=['merged']
    if 'Option<M8>' in ts: fl+=['nodrop']
    if len(ts)>1 and any(t in('M8','Value') for t in ts): fl+=['valsonly','loose']
    return {'flags':fl+['flat'],'seeds':[]}
for t in FT:
    for at in ['flatten','flatten, skip_serializing','flatten, default','flatten, skip_deserializing']:
        if ('default' in at or 'deser' in at) and t not in HASDEF: continue
        for ca in ['','deny_unknown_fields','tag = "t"']:
            if ca=='tag = "t"' and (at!='flatten' or t=='Option<M8>'): continue
            h=fl_hints(t)
            if 'skip' in at or 'default' in at: h=merge(h,{'flags':['asym','strict']})
            if ca.startswith('deny'): h=merge(h,{'flags':['loose']})
            # (serde: flatten is not supported together with deny_unknown_fields)
            if ca.startswith('deny') and t in ('M8','MV','Value','Option<M8>'): h=merge(h,{'flags':['sermismatch']})
            if 'tag' in ca and t in ('M8','MV','Value','Option<M8>'): h=merge(h,{'flags':['valsonly','loose']})
            struct(f'FL|{t}|{at}|{ca}',[F('aa','u8'),F('ff',t,at)],ca,hints=h)
    struct(f'FLo|{t}',[F('ff',t,'flatten')],hints=fl_hints(t))
    for tag in ('ext','int','adj','unt'):
        enum(f'FLe|{tag}|{t}',[V('Va','named',[F('aa','u8'),F('ff',t,'flatten')]),V('Zz','unit')],TAG[tag],hints=merge(fl_hints(t),{'tags':tags_of(tag),'wraps':WRAP[tag]}))
COLLIDE=[{'Xe','XeS','Option<XeS>'},{'Ie','Ae'},{'Req1','Ne','Option<Req1>'},{'Ae','M8'},{'M8','Value'}]
FT2=['In1','InDef','Req1','M8','Xe','XeS','Ie','Ae','Ne','Option<Req1>','Option<XeS>','Value']
for a,b in itertools.product(FT2,FT2):
    if a==b or any(a in g and b in g for g in COLLIDE): continue
    struct(f'FL2|{a}|{b}',[F('f1',a,'flatten'),F('aa','u8'),F('f2',b,'flatten')],hints=fl_hints(a,b))
# attributed fields beside a flattened one, before and after it, and inside variants
for ty in ('u8','Option<u8>','In1'):
    for at,h in fattrs(ty):
        for t in ('In1','XeS','Option<Req1>','Ie'):
            if t=='In1' and ty=='In1' and 'ali' in at: pass
            f=F('fo_o',ty,at); g=F('ff',t,'flatten')
            hh=merge(h,fl_hints(t))
            struct(f'FLs|{ty}|{at}|{t}|0',[f,g],hints=hh)
            struct(f'FLs|{ty}|{at}|{t}|1',[g,f],hints=hh)
            for tag in ('ext','int','adj','unt'):
                if t not in('In1','XeS'): continue
                he=merge({k:v for k,v in hh.items() if k not in('ser_absent','de_absent')},{'flags':['asym'] if 'skip' in at else []})
                enum(f'FLs|{ty}|{at}|{t}|{tag}',[V('Va','named',[f,g]),V('Zz','unit')],TAG[tag],hints=merge(he,{'tags':tags_of(tag),'wraps':WRAP[tag]}))
for t in ['In1','Option<In1>','XeS','M8','Ie','Ne']:
    fs=[F('aa','u8'),F('ff',t,'flatten')]
    struct(f'FLd|{t}',fs,'default',extra=with_default(fs),hints=merge(fl_hints(t),{'flags':['strict']}))
    struct(f'FLr|{t}',fs,'rename_all = "UPPERCASE"',hints=fl_hints(t))
# recursion
add('RC|list',f'{DER} struct T {{ v: u8, next: Option<Box<T>> }}','for x in <Option<u8> as Vals>::vals() { o.push((0,ser(T { v: 1, next: x.map(|v| Box::new(T { v, next: None })) }))); }',{})
add('RC|vec',f'{DER} struct T {{ kids: Vec<T> }}','o.push((0,ser(T { kids: vec![] }))); o.push((0,ser(T { kids: vec![T { kids: vec![] }] })));',{})
add('RC|enum',f'{DER} #[serde(untagged)] enum T {{ Leaf(u8), Node(Box<T>, Box<T>) }}','o.push((0,ser(T::Leaf(1)))); o.push((1,ser(T::Node(Box::new(T::Leaf(1)),Box::new(T::Leaf(2))))));',{})
add('RC|int',f'{DER} #[serde(tag = "t")] enum T {{ Leaf, Node {{ l: Box<T>, r: Option<Box<T>> }} }}','o.push((0,ser(T::Leaf))); o.push((1,ser(T::Node { l: Box::new(T::Leaf), r: None })));',{'tags':['Leaf','Node']})
add('RC|ext',f'{DER} enum T {{ Leaf, Node(Vec<T>), One(Box<T>) }}','o.push((0,ser(T::Leaf))); o.push((1,ser(T::Node(vec![T::Leaf])))); o.push((2,ser(T::One(Box::new(T::Leaf)))));',{})
add('RC|flat',f'{DER} struct T {{ v: u8, #[serde(flatten)] m: BMap<String, T> }}','o.push((0,ser(T { v: 1, m: BMap::new() }))); o.push((0,ser(T { v: 1, m: [("k".to_string(), T { v: 2, m: BMap::new() })].into_iter().collect() })));',{'flags':['flat']})
# generics instantiated
add('GN|struct',f'{DER} struct G<A, B> {{ a: A, b: Option<B> }} type T = G<u8, Vec<In1>>;','for x in <Option<Vec<In1>> as Vals>::vals() { o.push((0,ser(G { a: 1u8, b: x }))); }',{})
add('GN|enum',f'{DER} #[serde(tag = "t", content = "c")] enum G<A> {{ Va(A), Vb {{ x: A }} }} type T = G<Option<u8>>;','o.push((0,ser(G::Va(Some(1u8))))); o.push((0,ser(G::<Option<u8>>::Va(None)))); o.push((1,ser(G::Vb { x: Some(2u8) })));',{'tags':['Va','Vb'],'wraps':WRAP['adj']})

# ---------------------------------------------------------------- output
def write(path,text):
    os.makedirs(os.path.dirname(path),exist_ok=True)
    try:
        if open(path).read()==text: return
    except OSError: pass
    open(path,'w').write(text)
def rs(s):
    h='#'*4
    return f'r{h}"{s}"{h}'
def emit():
    sel=os.environ.get('GEN_ONLY')
    ps=[p for p in progs if not sel or re.search(sel,p[0])]
    per=(len(ps)+NCRATES-1)//NCRATES
    for c in range(NCRATES):
        chunk=ps[c::NCRATES]
        mods=['#![allow(warnings)]','use dlib::{prog, Prog};']
        regs=[]
        for i,(id,src,vals,h) in enumerate(chunk):
            src1=re.sub(r'\s+',' ',src)
            mods.append(f'mod p{i} {{ use dlib::types::*; use dlib::{{prog, ser, Prog, Vals}}; use schemars::JsonSchema; use serde::{{Deserialize, Serialize}};\n{src}\npub fn p() -> Prog {{ prog::<T>({rs(id)}, {rs(src1)}, {rs(json.dumps(h))}, vals) }}\nfn vals() -> Vec<(usize, Option<Value>)> {{ let mut o = vec![];\n{vals}\no }} }}')
            regs.append(f'p{i}::p()')
        mods.append('pub fn all() -> Vec<Prog> { vec!['+', '.join(regs)+'] }')
        write(f'{OUT}/p{c}/src/lib.rs','\n'.join(mods)+'\n')
        write(f'{OUT}/p{c}/Cargo.toml',f'''[package]
name = "p{c}"
version = "0.1.0"
edition = "2021"
[dependencies]
dlib = {{ path = "../../dlib" }}
schemars = {{ path = "/repo/schemars", features = ["preserve_order"] }}
serde = {{ version = "1", features = ["derive"] }}
serde_json = "1"
[workspace]
''')
    print(len(ps),'programs')
emit()
