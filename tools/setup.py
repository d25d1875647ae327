"""Nothing to install: every check builds what it needs. Verifies that the tools are there and warms the build."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
print(B.build('plain', ['smoke.cpp', 'mc.cpp', 'net.cpp', 'fullnet.cpp'], 'smoke'))
