import C20
def run(c): return C20.run(c, 'C22', 30)
