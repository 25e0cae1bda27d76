import lint
def run(c):
    n = lint.formats(c)
    c.need('format', 30)
    c.assume += ['DEBUG_LOG builds: the diagnostics are analysed as if logging were compiled in', 'templates are analysed for the arguments the library instantiates', 'code compiled only with OpenCV is not reached (its headers are not installed)']
    return c.finish('Every call of nloginfo, nlogwarn, nlogerror, printf, fprintf, snprintf and sprintf in the library (the vendored triangulator excepted) and in the Python module is matched by the C++ front end against its format string: number, kind and width of each argument.')
