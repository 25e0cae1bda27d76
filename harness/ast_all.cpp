// Every class template of the library, instantiated for the arguments the library uses, so that every member has a typed body.
#include <nikfemm.hpp>
namespace nikfemm {
    template struct Drawing<CurrentDensityProp>;
    template struct Drawing<MagnetostaticProp>;
    template struct Mesh<CurrentDensityProp>;
    template struct Mesh<MagnetostaticProp>;
    template struct MatCOOSymmetric<double>;
    template struct MatCOOSymmetric<NonLinearExpression>;
    template struct System<double>;
    template struct System<NonLinearExpression>;
}
