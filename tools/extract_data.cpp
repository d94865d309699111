// Prints the reference tables of spec/data from a trusted revision of the
// library. Used once to create the committed files, never by a check.
// usage: extract_data OUTDIR
#include <cstdio>
#include <string>
#include <cstdint>
#include "catima/catima.h"
#include "catima/nucdata.h"
#include "catima/srim.h"
#include "catima/data_atima.h"
#include "catima/data_ionisation_potential.h"
#include "catima/abundance_database.h"
#include "catima/generated_LS_coeff.h"
using namespace catima;
static std::string dir;
static FILE* open(const char *n){return fopen((dir+"/"+n).c_str(),"w");}
int main(int argc,char**argv){
    dir=argv[1];
    FILE *f=open("srim85.txt");
    for(int i=0;i<92;i++){for(int j=0;j<8;j++)fprintf(f,"%.17g ",proton_stopping_coef[i][j]);fprintf(f,"\n");}
    fclose(f);
    f=open("srim95.txt");
    for(int i=0;i<92;i++){for(int j=0;j<8;j++)fprintf(f,"%.17g ",pse_95[i][j]);fprintf(f,"\n");}
    fclose(f);
    f=open("srim_ion.txt"); fprintf(f,"# fermi velocity, screening length factor\n");
    for(int i=0;i<92;i++)fprintf(f,"%.17g %.17g\n",atima_vfermi[i],atima_lambda_screening[i]);
    fclose(f);
    f=open("density_effect.txt"); fprintf(f,"# x0 x1 a c m del0, Z=1..97\n");
    for(int i=0;i<97;i++)fprintf(f,"%.17g %.17g %.17g %.17g %.17g %.17g\n",density_effect::x0[i],density_effect::x1[i],density_effect::a[i],density_effect::c[i],density_effect::m[i],density_effect::del_0[i]);
    fclose(f);
    f=open("elements.txt"); fprintf(f,"# atomic weight, density (0 unknown), ionisation potential, Z=1..120\n");
    for(int z=1;z<=120;z++)fprintf(f,"%.17g %.17g %.17g\n",element_atomic_weight(z),element_density(z),ipot(z));
    fclose(f);
    f=open("isotopes.txt"); fprintf(f,"# one row per element: A abundance A abundance ..\n");
    for(int z=1;z<=109;z++){for(int i=0;i<abundance::get_isotopes_num(z);i++)fprintf(f,"%d %.9g ",abundance::get_isotope_a(z,i),abundance::get_abundance(z,i));fprintf(f,"\n");}
    fclose(f);
    f=open("materials.txt"); fprintf(f,"# id density molar_mass I then A Z stn ..\n");
    for(int id=201;id<=349;id++){Material m=get_material(id); fprintf(f,"%d %.17g %.17g %.17g",id,m.density(),m.M(),m.I());
      for(int i=0;i<m.ncomponents();i++){auto t=m.get_element(i);fprintf(f," %.17g %d %.17g",t.A,t.Z,t.stn);} fprintf(f,"\n");}
    fclose(f);
    const char *n[]={"ls_a.txt","ls_ahi.txt","lsx_a.txt","lsx_ahi.txt"};
    double (*t[])[200]={ls_coefficients::ls_coefficients_a,ls_coefficients::ls_coefficients_ahi,ls_coefficients::ls_X_coefficients_a,ls_coefficients::ls_X_coefficients_ahi};
    for(int k=0;k<4;k++){f=open(n[k]);for(int z=0;z<LS_MAX_Z;z++){for(int i=0;i<200;i++)fprintf(f,"%.9g ",t[k][z][i]);fprintf(f,"\n");}fclose(f);}
}
