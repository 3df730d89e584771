#pragma once
extern "C" {
typedef double fftw_complex[2]; typedef float fftwf_complex[2];
typedef struct fftw_plan_s *fftw_plan; typedef struct fftwf_plan_s *fftwf_plan;
fftw_plan fftw_plan_many_dft(int,const int*,int,fftw_complex*,const int*,int,int,fftw_complex*,const int*,int,int,int,unsigned);
void fftw_execute_dft(const fftw_plan,fftw_complex*,fftw_complex*); void fftw_destroy_plan(fftw_plan);
fftwf_plan fftwf_plan_many_dft(int,const int*,int,fftwf_complex*,const int*,int,int,fftwf_complex*,const int*,int,int,int,unsigned);
void fftwf_execute_dft(const fftwf_plan,fftwf_complex*,fftwf_complex*); void fftwf_destroy_plan(fftwf_plan);
}
#define FFTW_FORWARD (-1)
#define FFTW_BACKWARD (+1)
#define FFTW_ESTIMATE (1U << 6)
#define FFTW_MEASURE (0U)
