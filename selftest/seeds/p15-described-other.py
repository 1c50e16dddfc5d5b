PROPERTY = 'P15'
EDITS = [('python/podio_schema_evolution.py', '                and (schema_change.klassname == dropped_member.klassname)\n', '')]
NEEDS = 'the description of a rename of another type with the same member names'
BREAKS = 'a rename that nobody described is handled with the description of another type'
DEMO = '#!/bin/bash\n# compares generated models with the code in /repo\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d /tmp/demo.XXXXXX)\ncp "$D/demo.py" "$T/demo.py"\ncd "$T"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python timeout 120 /usr/bin/python3 demo.py >"$T/log" 2>&1\nr=$?\ncat "$T/log"\nrm -rf "$T/demo.py" "$T/log"\n[ $r = 0 ] && exit 0\nexit 1\n'
FILES = {'demo.py': 'import sys\nfrom podio_gen.podio_config_reader import PodioConfigReader\nfrom podio_schema_evolution import *\n\nHEAD = "options:\\n  getSyntax: True\\n"\n\n\ndef model(txt, version):\n    with open("m%d.yaml" % version, "w") as f:\n        f.write("schema_version: %d\\n" % version + HEAD + txt)\n    return PodioConfigReader.read("m%d.yaml" % version, package_name="m")\n\n\ndef check(new, old, evo=None):\n    n, o = model(new, 2), model(old, 1)\n    if evo:\n        with open("evo.yaml", "w") as f:\n            f.write(evo)\n    changes = DataModelComparator(n).compare(o)\n    return SchemaEvolutionJudge(n, evolution_file="evo.yaml" if evo else None).judge(o, changes)\n\n\ndef typ(name, members="", vec="", one="", many=""):\n    t = "  %s:\\n    Description: \\"d\\"\\n    Author: \\"a\\"\\n" % name\n    for k, v in (("Members", members), ("VectorMembers", vec), ("OneToOneRelations", one), ("OneToManyRelations", many)):\n        if v:\n            t += "    %s:\\n" % k + "".join("      - %s // m\\n" % m for m in v.split(";"))\n    return t\n\n\nevo = """migrations:\n  B:\n    - from_version: 1\n      to_version: 2\n      rename_member:\n        from: x\n        to: y\n"""\nnew = "datatypes:\\n" + typ("A", "int y") + typ("B", "float y")\nold = "datatypes:\\n" + typ("A", "int x") + typ("B", "float x")\nr = check(new, old, evo)\nif not r.warnings and not r.errors:\n    print("accepted", r.schema_changes)\n    sys.exit(1)\n'}
