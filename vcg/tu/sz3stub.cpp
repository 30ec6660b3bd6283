// the contract of VariableEBLinearQuantizer::quantize_and_overwrite as a program (part kernels proves it of the real function):
// code 0 keeps the value and appends it to the verbatim values, any other code leaves what recover gives back for it
extern "C" {
int sz3_code_f(void *, float, float, float); void sz3_push_f(void *, float *); float sz3_rec_f(void *, float, int, float);
int sz3_code_d(void *, double, double, double); void sz3_push_d(void *, double *); double sz3_rec_d(void *, double, int, double);
int sz3_quantize_f(void * q, float * data, float pred, float eb){ int c = sz3_code_f(q, *data, pred, eb); if(c == 0){ sz3_push_f(q, data); return 0; } *data = sz3_rec_f(q, pred, c, eb); return c; }
int sz3_quantize_d(void * q, double * data, double pred, double eb){ int c = sz3_code_d(q, *data, pred, eb); if(c == 0){ sz3_push_d(q, data); return 0; } *data = sz3_rec_d(q, pred, c, eb); return c; }
}
