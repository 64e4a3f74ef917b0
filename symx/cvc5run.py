"""child process: SMT-LIB text on stdin, one word of answer on stdout"""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import cvc5

tm = cvc5.TermManager()
slv = cvc5.Solver(tm)
slv.setOption("tlimit-per", sys.argv[1])
slv.setOption("nl-cov", "true")
ip = cvc5.InputParser(slv)
ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, sys.stdin.read(), "q")
sm = ip.getSymbolManager()
while True:
    cmd = ip.nextCommand()
    if cmd.isNull():
        break
    print(cmd.invoke(slv, sm), flush=True)
