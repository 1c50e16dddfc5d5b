PROPERTY = 'P15'
EDITS = [('python/podio_schema_evolution.py', '                if old.full_type != new.full_type:\n', '                if old.bare_type != new.bare_type:\n')]
NEEDS = 'a member whose type is replaced by one of the same name in another namespace'
BREAKS = 'the change of the type is neither reported nor refused'
DEMO = '#!/bin/bash\n# compares generated models with the code in /repo\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d /tmp/demo.XXXXXX)\ncp "$D/demo.py" "$T/demo.py"\ncd "$T"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python timeout 120 /usr/bin/python3 demo.py >"$T/log" 2>&1\nr=$?\ncat "$T/log"\nrm -rf "$T/demo.py" "$T/log"\n[ $r = 0 ] && exit 0\nexit 1\n'
FILES = {'demo.py': 'import sys\nfrom podio_gen.podio_config_reader import PodioConfigReader\nfrom podio_schema_evolution import *\n\nHEAD = "options:\\n  getSyntax: True\\n"\n\n\ndef model(txt, version):\n    with open("m%d.yaml" % version, "w") as f:\n        f.write("schema_version: %d\\n" % version + HEAD + txt)\n    return PodioConfigReader.read("m%d.yaml" % version, package_name="m")\n\n\ndef check(new, old, evo=None):\n    n, o = model(new, 2), model(old, 1)\n    if evo:\n        with open("evo.yaml", "w") as f:\n            f.write(evo)\n    changes = DataModelComparator(n).compare(o)\n    return SchemaEvolutionJudge(n, evolution_file="evo.yaml" if evo else None).judge(o, changes)\n\n\ndef typ(name, members="", vec="", one="", many=""):\n    t = "  %s:\\n    Description: \\"d\\"\\n    Author: \\"a\\"\\n" % name\n    for k, v in (("Members", members), ("VectorMembers", vec), ("OneToOneRelations", one), ("OneToManyRelations", many)):\n        if v:\n            t += "    %s:\\n" % k + "".join("      - %s // m\\n" % m for m in v.split(";"))\n    return t\n\n\ncomps = "components:\\n  one::P:\\n    Members:\\n      - int x\\n  two::P:\\n    Members:\\n      - double x\\n"\nr = check(comps + "datatypes:\\n" + typ("A", "two::P p"), comps + "datatypes:\\n" + typ("A", "one::P p"))\nif not r.errors:\n    print("accepted", r.schema_changes)\n    sys.exit(1)\n'}
