PROPERTY = 'P16'
EDITS = [('python/podio_gen/podio_config_reader.py', 'in_definitions = member.full_type in all_types or member.array_type in all_types', 'in_definitions = member.full_type in all_types or member.is_array')]
NEEDS = 'an array of an unknown type as member of a datatype'
BREAKS = 'a datatype that cannot be compiled is accepted'
DEMO = '#!/bin/bash\n# compares generated models with the code in /repo\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d /tmp/demo.XXXXXX)\ncp "$D/demo.py" "$T/demo.py"\ncd "$T"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python timeout 120 /usr/bin/python3 demo.py >"$T/log" 2>&1\nr=$?\ncat "$T/log"\nrm -rf "$T/demo.py" "$T/log"\n[ $r = 0 ] && exit 0\nexit 1\n'
FILES = {'demo.py': 'import sys\nfrom podio_gen.podio_config_reader import PodioConfigReader\n\n\ndef refused(txt):\n    with open("m.yaml", "w") as f:\n        f.write("schema_version: 1\\n" + txt)\n    try:\n        PodioConfigReader.read("m.yaml", package_name="m")\n    except Exception as e:\n        print("refused:", e)\n        return True\n    return False\n\n\nTYP = \'datatypes:\\n  A:\\n    Description: "d"\\n    Author: "a"\\n\'\nok = refused(TYP + \'    Members:\\n      - std::array<Missing, 3> y // m\\n\')\nok = not refused(TYP + \'    Members:\\n      - std::array<float, 3> y // m\\n\') and ok\nsys.exit(0 if ok else 1)\n'}
