"""Compiles the verified sources to LLVM IR (from /repo's working tree) and loads them."""
import subprocess,os,glob,hashlib,sys,re
from concurrent.futures import ThreadPoolExecutor
import ir,cxxtypes
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('COIL_REPO','/repo')
BASE=['clang++','-std=c++17','-include',os.path.join(HERE,'../search/prelude.h'),'-I'+REPO+'/include','-O0','-Xclang','-disable-O0-optnone','-fno-discard-value-names',
  '-DCOIL_CONFIG_ENABLE_ASSERTS=1','-S','-emit-llvm','-w']
NOEXC=['-fno-exceptions','-DCOIL_CONFIG_CATCH_EXCEPTIONS=0']
EXC=['-fexceptions','-DCOIL_CONFIG_CATCH_EXCEPTIONS=1']
class BuildError(Exception): pass
def compile_one(f,out,flags):
    r=subprocess.run(BASE+flags+[f,'-o',out],capture_output=True,text=True)
    if r.returncode: raise BuildError(f+': '+r.stderr[-2000:])
    r=subprocess.run(BASE+flags+['-Xclang','-fdump-record-layouts',f,'-o','/dev/null'],capture_output=True,text=True)
    return out,r.stdout
def load(work,units=(),flags=NOEXC,src=True):
    """IR of all /repo/src files and the given harness units (names in dv/units)"""
    os.makedirs(work,exist_ok=True)
    fs=(sorted(glob.glob(REPO+'/src/*.cpp')) if src else [])+[os.path.join(HERE,'units',u+'.cpp') for u in units]
    lay=cxxtypes.Layouts();mods=[]
    with ThreadPoolExecutor(8) as ex:
        for out,dump in ex.map(lambda f:compile_one(f,os.path.join(work,os.path.basename(f)+'.ll'),flags),fs):
            src_=open(out).read();m=ir.Parser().parse(src_);m.src=src_;mods.append(m);lay.parse(dump)
            m.file=out
    return mods,cxxtypes.Types(lay)
