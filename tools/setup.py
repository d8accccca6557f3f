"""builds what the checks use, so that they only rebuild what changed"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drive
drive.build(['cdump'] + ['commsdsl2' + a for a in drive.APPS])
