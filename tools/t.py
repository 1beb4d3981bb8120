import sys; sys.path.insert(0,'/verif/harness'); import vlib,checks
vlib.main(['x','T'],{'T':getattr(checks,sys.argv[1])})
