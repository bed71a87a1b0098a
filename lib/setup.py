#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
l = check.lock('extractor'); check.build_extractor()
print('extractor built')
