// Stand-in for the parts of abscab-cpp that VMEC++ calls (abscab-cpp is not available
// offline). Textbook formulas (Hanson & Hirshman 2002 for straight segments, complete
// elliptic integrals for the circular loop); every routine ADDS to its output, as
// abscab does.
#ifndef VERIF_SHIM_ABSCAB_HH_
#define VERIF_SHIM_ABSCAB_HH_
namespace abscab {
constexpr double MU_0 = 1.25663706212e-6;
void magneticFieldPolygonFilament(int numVertices, const double* vertices, double current,
                                  int numEvalPos, const double* evalPos, double* magneticField,
                                  int numProcessors = 1, bool useCompensatedSummation = true);
void vectorPotentialPolygonFilament(int numVertices, const double* vertices, double current,
                                    int numEvalPos, const double* evalPos, double* vectorPotential,
                                    int numProcessors = 1, bool useCompensatedSummation = true);
void magneticFieldCircularFilament(const double* center, const double* normal, double radius,
                                   double current, int numEvalPos, const double* evalPos,
                                   double* magneticField, int numProcessors = 1);
void vectorPotentialCircularFilament(const double* center, const double* normal, double radius,
                                     double current, int numEvalPos, const double* evalPos,
                                     double* vectorPotential, int numProcessors = 1);
}  // namespace abscab
#endif
