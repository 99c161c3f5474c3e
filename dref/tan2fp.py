from dref.raytracefit import tan2fp, fp2tan
