"""Nothing has to be built: checks that the tools are there and that the specification parses."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def main():
    mods = sorted(f for f in os.listdir(SPEC) if f.endswith('.tla'))
    for m in mods:
        p = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY', m], cwd=SPEC, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            print(p.stdout)
            return 1
    print('parsed', ' '.join(mods))
    return 0


if __name__ == '__main__':
    sys.exit(main())
