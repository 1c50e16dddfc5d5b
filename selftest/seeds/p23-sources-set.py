PROPERTY = 'P23'
EDITS = [('python/podio_gen/cpp_generator.py', '        src_files = (f for f in self.generated_files if f.endswith(".cc"))\n', '        src_files = {f for f in self.generated_files if f.endswith(".cc")}\n')]
NEEDS = 'another hash seed'
BREAKS = 'the list of the sources has another order in every run, so that the build system sees a change'
DEMO = '#!/bin/bash\n# compares generated models with the code in /repo\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d /tmp/demo.XXXXXX)\ncp "$D/demo.py" "$T/demo.py"\ncd "$T"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python timeout 120 /usr/bin/python3 demo.py >"$T/log" 2>&1\nr=$?\ncat "$T/log"\nrm -rf "$T/demo.py" "$T/log"\n[ $r = 0 ] && exit 0\nexit 1\n'
FILES = {'demo.py': 'import os\nimport subprocess\nimport sys\n\nGEN = "/repo/python/podio_class_generator.py"\n\n\ndef generate(text, out, *args, seed=0):\n    """generate the code of the model, return what is in the folder"""\n    with open("m.yaml", "w") as f:\n        f.write("schema_version: 1\\n" + text)\n    env = dict(os.environ, PYTHONHASHSEED=str(seed))\n    subprocess.run(["/usr/bin/python3", GEN, "-q", *args, "m.yaml", out, "m", "ROOT"], check=True, env=env)\n    return content(out)\n\n\ndef content(out):\n    r = {}\n    for d, _, files in os.walk(out):\n        for n in files:\n            with open(os.path.join(d, n)) as f:\n                r[os.path.relpath(os.path.join(d, n), out)] = f.read()\n    return r\n\n\ndef typ(name, *members, many=()):\n    t = "  %s:\\n    Description: \\"d\\"\\n    Author: \\"a\\"\\n    Members:\\n" % name\n    t += "".join("      - %s // m\\n" % m for m in members)\n    if many:\n        t += "    OneToManyRelations:\\n" + "".join("      - %s // m\\n" % m for m in many)\n    return t\n\n\ntext = "datatypes:\\n" + typ("A", "int x") + typ("B", "int y")\nfirst = generate(text, "out0")\nfor seed in range(1, 6):\n    other = generate(text, "out%d" % seed, seed=seed)\n    for n in first:\n        if first[n] != other[n]:\n            print(n, "differs for hash seed", seed)\n            sys.exit(1)\n'}
