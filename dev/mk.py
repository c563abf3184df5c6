"""dev/mk.py HAND.py: applies a hand rewrite to /root/hk/repo (check it with VERIF_REPO=/root/hk/repo)"""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hand
shutil.rmtree("/root/hk", ignore_errors=True)
shutil.copytree("/repo", "/root/hk/repo", ignore=shutil.ignore_patterns("__pycache__", ".git"))
hand.apply("/root/hk", open("/verif/dev/hand/" + sys.argv[1]).read())
