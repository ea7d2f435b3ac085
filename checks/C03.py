#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vk, containers
vk.main("C03", lambda c: containers.run(c, ["deque", "small"], "lifetime"))
