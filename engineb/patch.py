#!/usr/bin/env python3
"""Patch a scratch copy of the *seed* compiler so that it dumps elaborated abstract syntax."""
import sys, shutil, os
root = sys.argv[1]
here = os.path.dirname(os.path.abspath(__file__))
c = root + "/base/compiler"
shutil.copy(here + "/absyn-dump.sml", c + "/TopLevel/main/absyn-dump.sml")
def edit(f, a, b):
    s = open(f).read()
    assert s.count(a) == 1, (f, a, s.count(a))
    open(f, "w").write(s.replace(a, b))
edit(c + "/core.cm", "TopLevel/main/compile.sml\n", "TopLevel/main/absyn-dump.sml\nTopLevel/main/compile.sml\n")
f = c + "/TopLevel/main/compile.sml"
edit(f, '''		before (check "elaborate")
''', '''		before (check "elaborate")
	  val _ = AbsynDump.dump {source=source, absyn=absyn, exportPid=exportPid, exportLvars=exportLvars}
''')
edit(f, '''	  val {flint, imports} =
		translate {''', '''	  in if AbsynDump.frontEndOnly() andalso not (#interactive source) then {
	    csegments = {code = CodeObj.alloc 64, data = Word8Vector.fromList []},
	    newstatenv = newstatenv,
	    absyn = absyn,
	    exportPid = exportPid,
	    exportLvars = exportLvars,
	    staticPid = staticPid,
	    pickle = pickle,
	    inlineExp = NONE,
	    imports = []
	  } else let
	  val {flint, imports} =
		translate {''')
edit(f, '''	  } end (* function compile *)''', '''	  } end end (* function compile *)''')
