"""Shared by the generators of schema-only programs: writes crates /verif/gen/<prefix><n> (git-ignored)."""
import os, re, json, hashlib
OUT='/verif/gen'
def write(path,text):
    os.makedirs(os.path.dirname(path),exist_ok=True)
    try:
        if open(path).read()==text: return
    except OSError: pass
    open(path,'w').write(text)
def rs(s):
    h='#'*5
    return f'r{h}"{s}"{h}'
def emit(prefix,n,progs,header='',lib='alib',entry='alib::entry::<T>({id}, {src})',ty='alib::Entry',features=('preserve_order',),extra=''):
    """progs: list of (id, source of a module that defines type T, ...)"""
    sel=os.environ.get('GEN_ONLY')
    progs=[p for p in progs if not sel or re.search(sel,p[0])]
    assert len({p[0] for p in progs})==len(progs),'duplicate ids'
    for c in range(n):
        mods=['#![allow(warnings)]']; regs=[]
        for i,p in enumerate(progs[c::n]):
            e=entry.format(id=rs(p[0]),src=rs(re.sub(r'\s+',' ',p[1])),*p[2:]) if len(p)==2 else p[2]
            mods.append(f'pub mod p{i} {{ {header}\n{p[1]}\npub fn p() -> {ty} {{ {e} }} }}')
            regs.append(f'p{i}::p')
        # in slices, so that no function gets too large
        mods.append(f'pub static ALL: &[fn() -> {ty}] = &['+', '.join(regs)+'];')
        write(f'{OUT}/{prefix}{c}/src/lib.rs','\n'.join(mods)+'\n')
        feats=', '.join(f'"{f}"' for f in features)
        write(f'{OUT}/{prefix}{c}/Cargo.toml',f'''[package]
name = "{prefix}{c}"
version = "0.1.0"
edition = "2021"
[dependencies]
{lib} = {{ path = "../../{lib}" }}
schemars = {{ path = "/repo/schemars", features = [{feats}] }}
serde = {{ version = "1", features = ["derive"] }}
serde_json = "1"
{extra}
[profile.dev]
opt-level = 0
debug = 0
[workspace]
''')
    return len(progs)
