PROPERTY = 'P16'
EDITS = [('python/podio_gen/podio_config_reader.py', '                    all_members[sub_member.name] = f"member \'{member.name}\'"\n', '                    if len(comp["Members"]) > 1:\n                        all_members[sub_member.name] = f"member \'{member.name}\'"\n')]
NEEDS = 'members of two one-member components that clash when they are exposed in a datatype'
BREAKS = 'a data model with two accessors of the same name is accepted'
DEMO = '#!/bin/bash\n# compares generated models with the code in /repo\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d /tmp/demo.XXXXXX)\ncp "$D/demo.py" "$T/demo.py"\ncd "$T"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python timeout 120 /usr/bin/python3 demo.py >"$T/log" 2>&1\nr=$?\ncat "$T/log"\nrm -rf "$T/demo.py" "$T/log"\n[ $r = 0 ] && exit 0\nexit 1\n'
FILES = {'demo.py': 'import sys\nfrom podio_gen.podio_config_reader import PodioConfigReader\n\n\ndef refused(txt):\n    with open("m.yaml", "w") as f:\n        f.write("schema_version: 1\\n" + txt)\n    try:\n        PodioConfigReader.read("m.yaml", package_name="m")\n    except Exception as e:\n        print("refused:", e)\n        return True\n    return False\n\n\nHEAD = \'options:\\n  exposePODMembers: True\\ncomponents:\\n  P:\\n    Members:\\n      - int x\\n  Q:\\n    Members:\\n      - float x\\n\'\nTYP = \'datatypes:\\n  A:\\n    Description: "d"\\n    Author: "a"\\n\'\nsys.exit(0 if refused(HEAD + TYP + \'    Members:\\n      - P p // m\\n      - Q q // m\\n\') else 1)\n'}
