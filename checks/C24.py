from flow import flow
KW = dict(opq=[r'^bool std::operator==<nikfemm::BH_Point', r'^std::_Hash_impl::', r'^std::_Hash_bytes', r'^std::hash<double>::'], opts=dict(pure=[r'std::operator==<nikfemm::BH_Point', r'^std::hash<double>::']), ignore=[r'^arg\.1'])
def run(c):
    flow(c, need=23, **KW)
    c.assume.append('std::hash<double> and equality of std::set are uninterpreted functions of the values they are given')
    return c.finish('Every equality, inequality, ordering and hash of the value types is compared, on symbolic operands, with the comparison of all fields (segments regardless of direction) and its negation.')
