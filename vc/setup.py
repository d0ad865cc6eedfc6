#!/usr/bin/env python3
"""builds the extractor from the committed sources (each check builds it again when it is missing)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vc
os.makedirs(vc.BUILD, exist_ok=True)
vc.extractor()
print("ok")
