/* Writes a stand-in for high_qual_coeffs.h, which this tree lacks: a Kaiser windowed sinc of the same size and increment, so that the
** code behind ENABLE_SINC_BEST_CONVERTER can be built, run and compared with the model. */
#include <stdio.h>
#include <math.h>
enum { LEN = 340239, INC = 2381 } ;
static double i0 (double x) { double s = 1, t = 1 ; for (int k = 1 ; k < 60 ; k++) { t *= (x / 2 / k) * (x / 2 / k) ; s += t ; if (t < 1e-18 * s) break ; } return s ; }
int main (void)
{	double beta = 0.1102 * (125 - 8.7), fc = 0.97, half = LEN - 2 ;
	printf ("static const struct slow_high_qual_coeffs_s\n{\tint increment ;\n\tcoeff_t coeffs [%d] ;\n} slow_high_qual_coeffs =\n{\t%d,\n{\n", LEN, INC) ;
	for (int i = 0 ; i < LEN - 1 ; i++)
	{	double t = i / (double) INC, w = i / half, s = i ? sin (M_PI * fc * t) / (M_PI * fc * t) : 1 ;
		printf ("%.9g,\n", w >= 1 ? 0 : fc * s * i0 (beta * sqrt (1 - w * w)) / i0 (beta)) ;
		}
	printf ("0.0\n}\n} ;\n") ;
	return 0 ;
}
