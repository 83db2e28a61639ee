#!/bin/bash
# copies what mutate.py needs, so that it does not depend on the state of /repo
rm -rf /tmp/mut/repo && mkdir -p /tmp/mut/repo/_build/sdk && cp -a /repo/src /repo/almath /tmp/mut/repo/ && cp -a /repo/_build/sdk/bin /repo/_build/sdk/include /tmp/mut/repo/_build/sdk/
rm -rf /tmp/mut/chk && mkdir -p /tmp/mut/chk && cp /verif/build/opt/mc.o /verif/build/opt/c_*.o /tmp/mut/chk/
