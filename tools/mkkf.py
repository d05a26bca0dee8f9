"""Writes known_findings.txt from the fix: commits in /repo."""
import subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s','1da3731..HEAD']).decode().strip().split('\n')[::-1]
P={'rxx, ryy and rzz support matrix':('C01','circuits with rxx/ryy/rzz: cir_expectation (default route) and TN_evolution raised AttributeError, TN_check said supported'),
'a cnot ring on part':('C10','ring_of_cnot(_dagger) on a subset or permutation of the qubits: TN_check True but evolution and contraction rejected it'),
'parameter bookkeeping':('C10','cir_params/cir_num_params after clear(), params_update() or a rejected add()'),
'gradients work on a private':('C04','cal_params_grad/cal_params_grad2 interrupted half way left the circuit with shifted parameters (also C02, C03)'),
'parameter-shift gradient of cu3':('C05','cal_params_grad of cu3 differed from the derivative'),
'PrepareRho of complex':('C13','PrepareRho of complex amplitudes was not a density matrix (outer product without the conjugate)'),
'stored-state gradient of u1':('C05','cal_params_grad2 of u1, cphase and cu3 differed from the derivative'),
'u1 and cphase keep':('C05','autograd through cphase (dense) and through updated u1/cphase gave no gradient'),
'parameter lists of tensors':('C05','u3/cu3/layers built from a list of tensors (also by operation_dagger) were cut from the graph'),
'inverses of layers whose':('C07','operation_dagger of a rotation layer whose parameters require grad raised RuntimeError'),
'params_update changes':('C04','a failing params_update left new parameters with the old matrix'),
'BasicEntangleLayer accepts':('C05','BasicEntangleLayer built from a list: cal_params_grad raised AttributeError'),
'MPS_expec leaves':('C02','MPS_expec changed the MPS it was given; the second call answered differently (also C11)'),
'MPS_inner_product with':('C11','MPS_inner_product of product states and of one qubit failed or was wrong'),
'MPS2Rho normalises':('C06','Rho2MPS/MPS2Rho round trip wrong when the backend returns another phase'),
'partial traces do not':('C02','partial_trace and partial_trace_old sorted the caller\'s list in place'),
'measure qubit 0':('C11','measure(n, state, 0) measured every qubit'),
'measure keeps':('C12','QuanConv2D weights received no gradient'),
'QuanConv2D visits':('C12','QuanConv2D failed on images whose size is not a multiple of the stride'),
'legacy rxx':('C01','legacy Circuit.rxx/ryy/rzz(q, 0, t) acted on qubits q and q+1'),
'gradients reach the parameters of reloaded':('C09','gates with parameters that require grad, pickled or torch.saved and loaded, were cut from automatic differentiation'),
'info() hands out':('C02',"overwriting the qubit lists info() returned (toffoli, multi_control_cnot, layers, rings) changed the gate"),
'PrepareRho of complex':('C13','PrepareRho of complex amplitudes was not a density matrix (outer product without the conjugate)'),
'parameter-shift and adjoint gradients of gates with integer':('C05','cal_params_grad and cal_params_grad2 of gates with integer parameters were wrong (the shifted angle was truncated)'),
'save_mid_MPS of a circuit without':('C05','save_mid_MPS of a circuit without gates raised IndexError'),
'stored-state gradient of circuits':('C05','save_mid_MPS raised RuntimeError when parameters require grad (also C02)'),
}
out=['# Genuine defects of TuringQ/QuantumTensorNetwork found by this framework. Lines "fixed:" suppress nothing.']
for l in log:
    h,s=l.split(' ',1); s=s.replace('fix: ','')
    k=[x for x in P if s.startswith(x)]
    assert len(k)==1,(s,k)
    out.append('fixed: property=%s %s %s'%(P[k[0]][0],h,P[k[0]][1]))
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
