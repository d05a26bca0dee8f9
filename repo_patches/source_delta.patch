From 6d5c4bedea5863c7bb8501c0a8d5bd37e6de86ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 01/25] fix: rxx, ryy and rzz support matrix product state
 evolution

They announce supportTN but had no TN_operation, so cir_expectation on its
default route and TN_evolution failed with AttributeError.
---
 deepquantum/gates/qoperator.py | 57 ++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 786d458..dbfdc37 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -641,6 +641,25 @@ class rxx(Operation):
         else:
             raise ValueError("Rxx gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("rxx gate input error! cannot TN_operation")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        #该门关于两个比特对称，无需区分控制、受控比特
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        s = temp.shape
+        temp = temp.view(s[0],s[1],s[2]*s[3],1)
+        temp = (self.matrix @ temp).view(s[0],s[1],s[2],s[3])
+        temp = temp.permute(2,3,0,1)
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        return MPS
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -777,6 +796,25 @@ class ryy(Operation):
     
     
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("ryy gate input error! cannot TN_operation")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        #该门关于两个比特对称，无需区分控制、受控比特
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        s = temp.shape
+        temp = temp.view(s[0],s[1],s[2]*s[3],1)
+        temp = (self.matrix @ temp).view(s[0],s[1],s[2],s[3])
+        temp = temp.permute(2,3,0,1)
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        return MPS
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -911,6 +949,25 @@ class rzz(Operation):
         else:
             raise ValueError("Rzz gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("rzz gate input error! cannot TN_operation")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        #该门关于两个比特对称，无需区分控制、受控比特
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        s = temp.shape
+        temp = temp.view(s[0],s[1],s[2]*s[3],1)
+        temp = (self.matrix @ temp).view(s[0],s[1],s[2],s[3])
+        temp = temp.permute(2,3,0,1)
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        return MPS
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
-- 
2.43.0


From a05756684caf41b1ac219ea3db90b4baa7170ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 02/25] fix: a cnot ring on part of the qubits does not claim
 tensor network support

TN_operation and TN_contract reject it, so TN_check answered True and
cir_expectation failed instead of taking the dense route.
---
 deepquantum/layers/qlayers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 307f8bd..89e99ea 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -650,7 +650,8 @@ class ring_of_cnot(TwoQbitGateLayer):
         self.nqubits = N
         self.wires = wires
         self.num_params = 0
-        self.supportTN = True
+        #只有作用在全部qubit上（且按顺序）时才支持TN
+        self.supportTN = ( self.wires == list( range(self.nqubits) ) )
     
     def _gate_fusion_U_expand(self,N):
         if N < 3:
@@ -803,7 +804,8 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
         self.nqubits = N
         self.wires = wires
         self.num_params = 0
-        self.supportTN = True
+        #只有作用在全部qubit上（且按顺序）时才支持TN
+        self.supportTN = ( self.wires == list( range(self.nqubits) ) )
     
     def _gate_fusion_U_expand(self,N):
         if N < 3:
-- 
2.43.0


From 23d9c320bc773deecc6aa3ae8c41fdd771217efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 03/25] fix: parameter bookkeeping follows the gate list

cir_params and cir_num_params were not reset by clear(), went stale after
params_update and were left half updated when add() was given an object
without num_params.
---
 deepquantum/gates/qcircuit.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6396bba..d6aade8 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -25,9 +25,20 @@ class Circuit(object):
         self.nqubits = N  # 总QuBit的个数
         self.gate = []  # 顺序添加各类门
         #self._U = torch.tensor(1.0) + 0j     # 线路酉矩阵，初始为1
-        self.cir_params = {} #以字典的方式记录线路中所有门、层的参数
-        self.cir_num_params = 0 #记录线路中的参数总数
-        
+    
+    @property
+    def cir_params(self):
+        '''
+        以字典的方式给出线路中所有门、层当前的参数
+        '''
+        return {idx: (g.params if g.num_params != 0 else None) for idx,g in enumerate(self.gate)}
+    
+    @property
+    def cir_num_params(self):
+        '''
+        线路中的参数总数
+        '''
+        return sum(g.num_params for g in self.gate)
         
         
     def state_init(self):
@@ -40,12 +51,9 @@ class Circuit(object):
         return state_init
 
     def add(self, gate):
-        self.gate.append(gate)
         if gate.num_params != 0:
-            self.cir_num_params += gate.num_params
-            self.cir_params[len(self.gate)-1] = gate.params
-        else:
-            self.cir_params[len(self.gate)-1] = None
+            gate.params #没有num_params、params的对象不是合法的门，在加入线路之前就报错
+        self.gate.append(gate)
 
     
     def U(self, left_to_right=True,cuda=False):
-- 
2.43.0


From 2709f17152b1bbbe7feda341fa2a6bb08c19fb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:57 +0000
Subject: [PATCH 04/25] fix: gradients work on a private copy of the circuit

cal_params_grad and cal_params_grad2 shifted the parameters of the caller's
gates in place: a failure half way left them shifted, another thread
evaluating the circuit saw shifted values, and parameters that require
grad could not be copied at all.
---
 deepquantum/gates/qcircuit.py | 55 ++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index d6aade8..93c9964 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -284,43 +284,55 @@ class parameter_shift(object):
     
     
     
+    def _private_circuit(self):
+        '''
+        平移参数只在线路的私有副本上进行：原线路的参数不会因中途报错而停留在平移后的值，
+        也不影响同时使用该线路的其他线程
+        '''
+        cir = copy.copy(self.cir)
+        cir.gate = [copy.copy(gate) for gate in self.cir.gate]
+        return cir
+    
+    
+    
     def cal_params_grad(self):
         grad_lst = []
-        for idx,gate in enumerate( self.cir.gate ):
+        cir = self._private_circuit()
+        for idx,gate in enumerate( cir.gate ):
             #遍历线路中的每个gate、layer
             if gate.num_params == 0:
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            p = gate.params.detach().clone()
             if len(p.shape) == 0:
                 #只有单个参数
-                self.cir.gate[idx].params_update(p + 0.5*torch.pi)
-                e1 = self.cir.cir_expectation(self.init_state, self.M)
-                self.cir.gate[idx].params_update(p - 0.5*torch.pi)
-                e2 = self.cir.cir_expectation(self.init_state, self.M)
-                self.cir.gate[idx].params_update(p) #最后别忘了把参数恢复
+                gate.params_update(p + 0.5*torch.pi)
+                e1 = cir.cir_expectation(self.init_state, self.M)
+                gate.params_update(p - 0.5*torch.pi)
+                e2 = cir.cir_expectation(self.init_state, self.M)
+                gate.params_update(p) #最后别忘了把参数恢复
                 grad_lst.append( 0.5*(e1 - e2) )
             
             elif len(p.shape) == 1:
                 #参数是个一维张量
                 for i,each_p in enumerate(p):
                     p[i] = p[i] + 0.5*torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    e1 = self.cir.cir_expectation(self.init_state, self.M)
+                    gate.params_update(p)
+                    e1 = cir.cir_expectation(self.init_state, self.M)
                     
                     p[i] = p[i] - 1.0*torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    e2 = self.cir.cir_expectation(self.init_state, self.M)
+                    gate.params_update(p)
+                    e2 = cir.cir_expectation(self.init_state, self.M)
                     
                     p[i] = p[i] + 0.5*torch.pi
-                    self.cir.gate[idx].params_update(p)
+                    gate.params_update(p)
                     #最后别忘了把参数恢复
                     grad_lst.append( 0.5*(e1 - e2) )
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
-        assert len(grad_lst) == self.cir.cir_num_params
+        assert len(grad_lst) == cir.cir_num_params
         return torch.tensor(grad_lst)
     
     
@@ -382,20 +394,21 @@ class parameter_shift(object):
     
     def cal_params_grad2(self,save_dict):
         grad_lst = []
-        num_gates = len(self.cir.gate)
+        cir = self._private_circuit()
+        num_gates = len(cir.gate)
         
         init_MPS = StateVec2MPS(self.init_state, self.cir.nqubits)
-        for idx,gate in enumerate( self.cir.gate ):
+        for idx,gate in enumerate( cir.gate ):
             #遍历线路中的每个gate、layer
             if gate.num_params == 0:
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            p = gate.params.detach().clone()
             if len(p.shape) == 0:
                 #只有单个参数
                 p = p - torch.pi
-                self.cir.gate[idx].params_update(p)
+                gate.params_update(p)
                 
                 if idx == 0:
                     MPS = copy.deepcopy( init_MPS )
@@ -410,7 +423,7 @@ class parameter_shift(object):
                 temp = -1.0*temp.real
                 
                 p = p + torch.pi
-                self.cir.gate[idx].params_update(p)
+                gate.params_update(p)
                 
                 grad_lst.append(temp)
                 
@@ -419,7 +432,7 @@ class parameter_shift(object):
                 for i,each_p in enumerate(p):
                     
                     p[i] = p[i] - torch.pi
-                    self.cir.gate[idx].params_update(p)
+                    gate.params_update(p)
                     #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
                     if idx == 0:
                         MPS = copy.deepcopy( init_MPS )
@@ -433,14 +446,14 @@ class parameter_shift(object):
                     temp = -1.0*temp.real
                     #本来取虚部变成取负实部，相当于修正了-1j
                     p[i] = p[i] + torch.pi
-                    self.cir.gate[idx].params_update(p)
+                    gate.params_update(p)
                     #最后别忘了把参数恢复
                     
                     grad_lst.append( temp )
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
-        assert len(grad_lst) == self.cir.cir_num_params
+        assert len(grad_lst) == cir.cir_num_params
         return torch.tensor(grad_lst)
         
 
-- 
2.43.0


From ec5c8740a00018e7c592ae19ebca9a78387f88d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:57 +0000
Subject: [PATCH 05/25] fix: parameter-shift gradient of cu3 uses the four-term
 rule

The expectation value has two frequencies in a controlled rotation angle,
so the two-term rule gave a wrong derivative.
---
 deepquantum/gates/qcircuit.py | 48 +++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 93c9964..5d589b2 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -295,6 +295,19 @@ class parameter_shift(object):
     
     
     
+    def _shift_rule(self, gate):
+        '''
+        参数平移法则的(系数,平移量)。一般的门只有一个频率，两项即可；
+        受控旋转门cu3的生成元有0、±1/2三种本征值，期望值含两个频率，需要四项
+        '''
+        if gate.label == "cu3":
+            c1 = (2**0.5 + 1.0)/(4.0*2**0.5)
+            c2 = (2**0.5 - 1.0)/(4.0*2**0.5)
+            return [ (c1, 0.5*torch.pi), (-c2, 1.5*torch.pi) ]
+        return [ (0.5, 0.5*torch.pi) ]
+    
+    
+    
     def cal_params_grad(self):
         grad_lst = []
         cir = self._private_circuit()
@@ -307,28 +320,35 @@ class parameter_shift(object):
             p = gate.params.detach().clone()
             if len(p.shape) == 0:
                 #只有单个参数
-                gate.params_update(p + 0.5*torch.pi)
-                e1 = cir.cir_expectation(self.init_state, self.M)
-                gate.params_update(p - 0.5*torch.pi)
-                e2 = cir.cir_expectation(self.init_state, self.M)
+                grad = 0.0
+                for coef,shift in self._shift_rule(gate):
+                    gate.params_update(p + shift)
+                    e1 = cir.cir_expectation(self.init_state, self.M)
+                    gate.params_update(p - shift)
+                    e2 = cir.cir_expectation(self.init_state, self.M)
+                    grad = grad + coef*(e1 - e2)
                 gate.params_update(p) #最后别忘了把参数恢复
-                grad_lst.append( 0.5*(e1 - e2) )
+                grad_lst.append( grad )
             
             elif len(p.shape) == 1:
                 #参数是个一维张量
                 for i,each_p in enumerate(p):
-                    p[i] = p[i] + 0.5*torch.pi
-                    gate.params_update(p)
-                    e1 = cir.cir_expectation(self.init_state, self.M)
-                    
-                    p[i] = p[i] - 1.0*torch.pi
-                    gate.params_update(p)
-                    e2 = cir.cir_expectation(self.init_state, self.M)
+                    grad = 0.0
+                    p0 = p.clone()
+                    for coef,shift in self._shift_rule(gate):
+                        p[i] = p0[i] + shift
+                        gate.params_update(p)
+                        e1 = cir.cir_expectation(self.init_state, self.M)
+                        
+                        p[i] = p0[i] - shift
+                        gate.params_update(p)
+                        e2 = cir.cir_expectation(self.init_state, self.M)
+                        grad = grad + coef*(e1 - e2)
                     
-                    p[i] = p[i] + 0.5*torch.pi
+                    p[i] = p0[i]
                     gate.params_update(p)
                     #最后别忘了把参数恢复
-                    grad_lst.append( 0.5*(e1 - e2) )
+                    grad_lst.append( grad )
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
-- 
2.43.0


From 26677087dc1f468f8867397a4f4e23f197d9f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 06/25] fix: stored-state gradient of u1, cphase and cu3

Their derivative is not the gate shifted by pi: part of the gate does not
depend on the parameter or depends on it with another frequency.
---
 deepquantum/gates/qcircuit.py | 79 +++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 32 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 5d589b2..13be809 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -412,6 +412,18 @@ class parameter_shift(object):
                 
     
     
+    def _derivative_rule(self, gate):
+        '''
+        由平移后的门组合出2*dU/dp的(系数,平移量)。泡利旋转门满足2*dU(p)/dp = -U(p-pi)；
+        u1、cphase、cu3还含有与参数无关或频率不同的部分，需要四项
+        '''
+        if gate.label in ("u1","cphase","cu3"):
+            c = 0.5 - 0.5**0.5
+            return [ (c, torch.pi), (-c, -torch.pi), (1.0, 0.5*torch.pi), (-1.0, -0.5*torch.pi) ]
+        return [ (-1.0, -torch.pi) ]
+    
+    
+    
     def cal_params_grad2(self,save_dict):
         grad_lst = []
         cir = self._private_circuit()
@@ -427,49 +439,52 @@ class parameter_shift(object):
             p = gate.params.detach().clone()
             if len(p.shape) == 0:
                 #只有单个参数
-                p = p - torch.pi
-                gate.params_update(p)
-                
-                if idx == 0:
-                    MPS = copy.deepcopy( init_MPS )
-                    MPS = gate.TN_operation( MPS )
-                else:
-                    MPS = copy.deepcopy( save_dict[idx-1] )
-                    MPS = gate.TN_operation( MPS )
-                
-                psi1 = MPS2StateVec( MPS )
-                psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
-                temp = -1.0*temp.real
-                
-                p = p + torch.pi
-                gate.params_update(p)
-                
-                grad_lst.append(temp)
-                
-            elif len(p.shape) == 1:
-                #参数是个一维张量
-                for i,each_p in enumerate(p):
+                grad = 0.0
+                for coef,shift in self._derivative_rule(gate):
+                    gate.params_update(p + shift)
                     
-                    p[i] = p[i] - torch.pi
-                    gate.params_update(p)
-                    #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
                     if idx == 0:
                         MPS = copy.deepcopy( init_MPS )
                         MPS = gate.TN_operation( MPS )
                     else:
                         MPS = copy.deepcopy( save_dict[idx-1] )
-                        MPS = gate.TN_operation( MPS ) #后面需要-1j修正
+                        MPS = gate.TN_operation( MPS )
+                    
                     psi1 = MPS2StateVec( MPS )
                     psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                    temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze() 
-                    temp = -1.0*temp.real
-                    #本来取虚部变成取负实部，相当于修正了-1j
-                    p[i] = p[i] + torch.pi
+                    temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
+                    grad = grad + coef*temp.real
+                
+                gate.params_update(p)
+                
+                grad_lst.append(grad)
+                
+            elif len(p.shape) == 1:
+                #参数是个一维张量
+                for i,each_p in enumerate(p):
+                    
+                    grad = 0.0
+                    p0 = p.clone()
+                    for coef,shift in self._derivative_rule(gate):
+                        p[i] = p0[i] + shift
+                        gate.params_update(p)
+                        #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
+                        if idx == 0:
+                            MPS = copy.deepcopy( init_MPS )
+                            MPS = gate.TN_operation( MPS )
+                        else:
+                            MPS = copy.deepcopy( save_dict[idx-1] )
+                            MPS = gate.TN_operation( MPS ) #后面需要-1j修正
+                        psi1 = MPS2StateVec( MPS )
+                        psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
+                        temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze() 
+                        grad = grad + coef*temp.real
+                        #本来取虚部变成取负实部，相当于修正了-1j
+                    p[i] = p0[i]
                     gate.params_update(p)
                     #最后别忘了把参数恢复
                     
-                    grad_lst.append( temp )
+                    grad_lst.append( grad )
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
-- 
2.43.0


From fd268015f8bd1173509f2b7c72831cfdaa6e9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 07/25] fix: u1 and cphase keep the gradient

u1.params_update, cphase.params_update and cphase.U_expand rebuilt the
matrix with torch.tensor([...]), which cuts it from the autograd graph.
---
 deepquantum/gates/qoperator.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index dbfdc37..6b543f3 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -525,8 +525,10 @@ class u1(SingleGateOperation):
         theta = theta + torch.tensor(0.0)
         self.params = theta
         
-        exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0],[0,exp_itheta]]) + 0j
+        c = torch.cos(0.5*theta)
+        s = torch.sin(0.5*theta)
+        e = c+1j*s
+        self.matrix = e*( c*torch.eye(2,2) - 1j*s*torch.tensor([[1,0],[0,-1]]) )
 
 
 
@@ -1464,7 +1466,7 @@ class cphase(Operation):
     def U_expand(self):
         if self.nqubits != -1 and self.wires != -1:
             exp_itheta = torch.cos(self.params) + 1j * torch.sin(self.params)
-            phase_gate = torch.tensor( [[1,0],[0,exp_itheta]] ) + 0j
+            phase_gate = torch.eye(2,2) + (exp_itheta-1)*torch.tensor([[0,0],[0,1]])
             control = self.wires[0]
             target = self.wires[1]
             return Operation.two_qubit_control_gate( phase_gate, self.nqubits, control, target )
@@ -1584,10 +1586,11 @@ class cphase(Operation):
         theta = theta + torch.tensor(0.0)
         self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0,0,0],\
-                                    [0,1,0,0],\
-                                    [0,0,1,0],\
-                                    [0,0,0,exp_itheta]]) + 0j
+        mt = torch.tensor([[0,0,0,0],\
+                           [0,0,0,0],\
+                           [0,0,0,0],\
+                           [0,0,0,1]])
+        self.matrix = torch.eye(4,4) + (exp_itheta-1)*mt
 
 
 
-- 
2.43.0


From d19e1d8fce8b585b7ec6b010869e64734ff49cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 08/25] fix: parameter lists of tensors keep their gradient

u3, cu3 (including their operation_dagger) and the rotation layers turned a
list of parameters into a new tensor, cut from the autograd graph.
---
 deepquantum/gates/qoperator.py | 16 ++++++++++++----
 deepquantum/layers/qlayers.py  | 14 +++++++-------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 6b543f3..a3c8ed5 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -10,6 +10,14 @@ from deepquantum.gates.qtensornetwork import TensorDecompAfterTwoQbitGate, Tenso
 from typing import List
 import copy
 
+def _params_tensor(params_lst):
+    '''
+    参数列表转成tensor，列表中的元素若是tensor则保留其计算图
+    '''
+    if any(isinstance(p, torch.Tensor) for p in params_lst):
+        return torch.stack([torch.as_tensor(p).reshape(()) + torch.tensor(0.0) for p in params_lst])
+    return torch.tensor(params_lst)
+
 class Operator(object):
     
     @staticmethod #为了让该函数既可以实例化调用，也可以不实例化直接Operator.gate_expand_1toN()调用
@@ -548,7 +556,7 @@ class u3(SingleGateOperation):
         self.self_inverse = False
         
         if type(theta_lst) == type([1]):
-            theta_lst = torch.tensor(theta_lst)
+            theta_lst = _params_tensor(theta_lst)
         self.nqubits = N
         self.wires = wires
         self.params = theta_lst
@@ -586,7 +594,7 @@ class u3(SingleGateOperation):
     def params_update(self,theta_lst):
         
         if type(theta_lst) == type([1]):
-            theta_lst = torch.tensor(theta_lst)
+            theta_lst = _params_tensor(theta_lst)
         self.params = theta_lst
         
         theta = theta_lst[0]
@@ -1607,7 +1615,7 @@ class cu3(Operation):
         self.wires = wires
         
         if type(theta_lst) == type([1]):
-            theta_lst = torch.tensor(theta_lst)
+            theta_lst = _params_tensor(theta_lst)
         self.params = theta_lst
         
         theta = theta_lst[0]
@@ -1743,7 +1751,7 @@ class cu3(Operation):
     
     def params_update(self,theta_lst):
         if type(theta_lst) == type([1]):
-            theta_lst = torch.tensor(theta_lst)
+            theta_lst = _params_tensor(theta_lst)
         self.params = theta_lst
         
         theta = theta_lst[0]
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 89e99ea..df4c4d8 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -7,7 +7,7 @@ Created on Mon Nov  8 09:06:10 2021
 import torch
 import torch.nn as nn
 from deepquantum.gates import multi_kron
-from deepquantum.gates.qoperator import Hadamard,rx,ry,rz,rxx,ryy,rzz,cnot,cz,SWAP,Operation
+from deepquantum.gates.qoperator import Hadamard,rx,ry,rz,rxx,ryy,rzz,cnot,cz,SWAP,Operation,_params_tensor
 from deepquantum.gates.qtensornetwork import StateVec2MPS,MPS2StateVec,TensorDecompAfterTwoQbitGate
 import time
 from typing import List
@@ -124,7 +124,7 @@ class XYZLayer(SingleGateLayer):
         self.wires = wires
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = _params_tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
@@ -197,7 +197,7 @@ class ZYXLayer(SingleGateLayer):
         self.wires = wires
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = _params_tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
@@ -273,7 +273,7 @@ class YZYLayer(SingleGateLayer):
         self.wires = wires
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = _params_tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
@@ -384,7 +384,7 @@ class XZXLayer(SingleGateLayer):
         self.wires = wires
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = _params_tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
@@ -463,7 +463,7 @@ class XZLayer(SingleGateLayer):
         self.wires = wires
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = _params_tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
@@ -535,7 +535,7 @@ class ZXLayer(SingleGateLayer):
         self.wires = wires
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = _params_tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
-- 
2.43.0


From a4c3070c29506c6f9464702552b96d5a9ec78a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 09/25] fix: inverses of layers whose parameters require grad

Only leaf tensors can be deep-copied, so operation_dagger failed for them.
---
 deepquantum/layers/qlayers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index df4c4d8..494297a 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -169,7 +169,7 @@ class XYZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return ZYXLayer(self.nqubits,self.wires,params_tensor)
@@ -242,7 +242,7 @@ class ZYXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XYZLayer(self.nqubits,self.wires,params_tensor)
@@ -348,7 +348,7 @@ class YZYLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return YZYLayer(self.nqubits,self.wires,params_tensor)
@@ -428,7 +428,7 @@ class XZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XZXLayer(self.nqubits,self.wires,params_tensor)
@@ -497,7 +497,7 @@ class XZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return ZXLayer(self.nqubits,self.wires,params_tensor)
@@ -571,7 +571,7 @@ class ZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return XZLayer(self.nqubits,self.wires,params_tensor)
-- 
2.43.0


From eacffdde025e50c21760922c2dde329633046312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 10/25] fix: params_update changes everything or nothing

When computing the new matrix failed, the gate was left with the new
parameter and the old matrix (or, in layers, a new parameter with the old
length), so its routes disagreed.
---
 deepquantum/gates/qoperator.py | 53 ++++++++++++++++++++--------------
 deepquantum/layers/qlayers.py  | 23 ++++++++-------
 2 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index a3c8ed5..d5ba0c4 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -377,9 +377,10 @@ class rx(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        matrix = torch.cos(params/2.0)*torch.eye(2,2) \
+            - 1j*torch.sin(params/2.0)*PauliX().matrix + 0j
         self.params = params
-        self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
-            - 1j*torch.sin(self.params/2.0)*PauliX().matrix + 0j
+        self.matrix = matrix
 
 
 
@@ -427,9 +428,10 @@ class ry(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        matrix = torch.cos(params/2.0)*torch.eye(2,2) \
+            - 1j*torch.sin(params/2.0)*PauliY().matrix + 0j
         self.params = params
-        self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
-            - 1j*torch.sin(self.params/2.0)*PauliY().matrix + 0j
+        self.matrix = matrix
 
 
 
@@ -476,9 +478,10 @@ class rz(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        matrix = torch.cos(params/2.0)*torch.eye(2,2) \
+            - 1j*torch.sin(params/2.0)*PauliZ().matrix + 0j
         self.params = params
-        self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
-            - 1j*torch.sin(self.params/2.0)*PauliZ().matrix + 0j
+        self.matrix = matrix
 
 
 
@@ -531,12 +534,13 @@ class u1(SingleGateOperation):
     
     def params_update(self,theta):
         theta = theta + torch.tensor(0.0)
-        self.params = theta
         
         c = torch.cos(0.5*theta)
         s = torch.sin(0.5*theta)
         e = c+1j*s
-        self.matrix = e*( c*torch.eye(2,2) - 1j*s*torch.tensor([[1,0],[0,-1]]) )
+        matrix = e*( c*torch.eye(2,2) - 1j*s*torch.tensor([[1,0],[0,-1]]) )
+        self.params = theta
+        self.matrix = matrix
 
 
 
@@ -595,17 +599,18 @@ class u3(SingleGateOperation):
         
         if type(theta_lst) == type([1]):
             theta_lst = _params_tensor(theta_lst)
-        self.params = theta_lst
         
         theta = theta_lst[0]
         phi = theta_lst[1]
         lambd = theta_lst[2]
-        self.matrix = \
+        matrix = \
             rz(phi).matrix \
             @ rx(-0.5*torch.pi).matrix \
             @ rz(theta).matrix \
             @ rx(0.5*torch.pi).matrix \
             @ rz(lambd).matrix
+        self.params = theta_lst
+        self.matrix = matrix
 #==============================带参数两比特门==================================
 
 
@@ -750,9 +755,10 @@ class rxx(Operation):
         return info
     
     def params_update(self,params):
+        matrix = torch.cos(params/2.0)*torch.eye(4,4) \
+            - 1j*torch.sin(params/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
         self.params = params
-        self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
-            - 1j*torch.sin(self.params/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
+        self.matrix = matrix
 
 
 
@@ -905,9 +911,10 @@ class ryy(Operation):
         return info
     
     def params_update(self,params):
+        matrix = torch.cos(params/2.0)*torch.eye(4,4) \
+            - 1j*torch.sin(params/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
         self.params = params
-        self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
-            - 1j*torch.sin(self.params/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
+        self.matrix = matrix
 
 
 
@@ -1058,9 +1065,10 @@ class rzz(Operation):
         return info
     
     def params_update(self,params):
+        matrix = torch.cos(params/2.0)*torch.eye(4,4) \
+            - 1j*torch.sin(params/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
         self.params = params
-        self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
-            - 1j*torch.sin(self.params/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
+        self.matrix = matrix
 
 
 
@@ -1592,13 +1600,14 @@ class cphase(Operation):
     
     def params_update(self,theta):
         theta = theta + torch.tensor(0.0)
-        self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
         mt = torch.tensor([[0,0,0,0],\
                            [0,0,0,0],\
                            [0,0,0,0],\
                            [0,0,0,1]])
-        self.matrix = torch.eye(4,4) + (exp_itheta-1)*mt
+        matrix = torch.eye(4,4) + (exp_itheta-1)*mt
+        self.params = theta
+        self.matrix = matrix
 
 
 
@@ -1752,18 +1761,20 @@ class cu3(Operation):
     def params_update(self,theta_lst):
         if type(theta_lst) == type([1]):
             theta_lst = _params_tensor(theta_lst)
-        self.params = theta_lst
         
         theta = theta_lst[0]
         phi = theta_lst[1]
         lambd = theta_lst[2]
-        self.u_matrix = \
+        u_matrix = \
             rz(phi).matrix \
             @ rx(-0.5*torch.pi).matrix \
             @ rz(theta).matrix \
             @ rx(0.5*torch.pi).matrix \
             @ rz(lambd).matrix
-        self.matrix = Operation.two_qubit_control_gate( self.u_matrix, 2, 0, 1 )
+        matrix = Operation.two_qubit_control_gate( u_matrix, 2, 0, 1 )
+        self.params = theta_lst
+        self.u_matrix = u_matrix
+        self.matrix = matrix
 
 
 
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 494297a..55772a9 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -179,8 +179,8 @@ class XYZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        self.num_params = len(params_lst) #没有长度的参数在这里报错，此时还未改动任何参数
         self.params = params_lst
-        self.num_params = len(params_lst)
     
 
 class ZYXLayer(SingleGateLayer):
@@ -252,8 +252,8 @@ class ZYXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        self.num_params = len(params_lst) #没有长度的参数在这里报错，此时还未改动任何参数
         self.params = params_lst
-        self.num_params = len(params_lst)
 
 
 
@@ -358,8 +358,8 @@ class YZYLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        self.num_params = len(params_lst) #没有长度的参数在这里报错，此时还未改动任何参数
         self.params = params_lst
-        self.num_params = len(params_lst)
 
 
 
@@ -438,8 +438,8 @@ class XZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        self.num_params = len(params_lst) #没有长度的参数在这里报错，此时还未改动任何参数
         self.params = params_lst
-        self.num_params = len(params_lst)
 
 
 
@@ -507,8 +507,8 @@ class XZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        self.num_params = len(params_lst) #没有长度的参数在这里报错，此时还未改动任何参数
         self.params = params_lst
-        self.num_params = len(params_lst)
 
 
 
@@ -581,8 +581,8 @@ class ZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        self.num_params = len(params_lst) #没有长度的参数在这里报错，此时还未改动任何参数
         self.params = params_lst
-        self.num_params = len(params_lst)
 
 
 
@@ -1014,13 +1014,14 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         return info
     
     def params_update(self,params_lst):
-        self.num_params = len(params_lst)
-        self.params = params_lst
-        self.part1_lst, self.part2_lst = [], []
+        part1_lst, part2_lst = [], []
         L = 3*len(self.wires)
         for i in range(self.repeat):
-            self.part1_lst.append( YZYLayer(self.nqubits, self.wires, self.params[i*L:(i+1)*L]) )
-            self.part2_lst.append( ring_of_cnot(self.nqubits, self.wires) )
+            part1_lst.append( YZYLayer(self.nqubits, self.wires, params_lst[i*L:(i+1)*L]) )
+            part2_lst.append( ring_of_cnot(self.nqubits, self.wires) )
+        self.num_params = len(params_lst)
+        self.params = params_lst
+        self.part1_lst, self.part2_lst = part1_lst, part2_lst
         
 
 
-- 
2.43.0


From b352aff954938e5fd78de26fdfbb94ead45833e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 11/25] fix: BasicEntangleLayer accepts a parameter list in
 gradients

Like every other layer it turns the list into a tensor.
---
 deepquantum/layers/qlayers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 55772a9..ea4bcf6 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -985,6 +985,8 @@ class BasicEntangleLayer(TwoQbitGateLayer):
             raise ValueError("BasicEntangleLayer: number of repeat must >= 1")
         self.label = "BasicEntangleLayer"
         
+        if type(params_lst) == type([1]):
+            params_lst = _params_tensor(params_lst)
         self.nqubits = N
         self.wires = wires
         self.num_params = len(params_lst)
-- 
2.43.0


From b481d408d75cd27fd5c5f4d544c5e85c34bfaa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 12/25] fix: MPS_expec leaves the state unchanged

The observables were applied to the caller's tensors, so asking for the
same expectation value twice gave two answers.
---
 deepquantum/gates/qtensornetwork.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index ed96e33..f6c9ae5 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -201,6 +201,7 @@ def MPS_expec(MPS,wires:List[int],local_obserable:List[torch.Tensor]):
     wires也是一个list，表明每个局部力学量作用在哪个qubit上
     '''
     SV0 = MPS2StateVec(MPS).view(1,-1)
+    MPS = list(MPS) #力学量作用在副本上，不改变输入的MPS
     
     for i,qbit in enumerate(wires):
         temp = MPS[qbit]
-- 
2.43.0


From 41db71809e29edcee0c92630512b729d2564011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 13/25] fix: MPS_inner_product with bond dimension one

squeeze() dropped the bond index of product states (and everything for one
qubit), so the contraction failed or paired the wrong indices.
---
 deepquantum/gates/qtensornetwork.py | 42 +++--------------------------
 1 file changed, 4 insertions(+), 38 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index f6c9ae5..51497b3 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -152,46 +152,12 @@ def MPS_inner_product(ketMPS,braMPS):
     '''
     MPS做内积完全没必要，不如直接恢复成state vector再做内积
     '''
-    #上限12个qubit
     N = len(ketMPS)
-    lst = []
+    t = torch.ones(1,1) + 0j
     for i in range(N):
-        t1 = ketMPS[i]
-        t2 = braMPS[i]
-        t1 = t1.permute(1,2,0)
-        t2 = t2.permute(1,2,0)
-        
-        for j in range(3):
-            t1 = t1.unsqueeze(2*j+1)
-            t2 = t2.unsqueeze(2*j)
-        qbit_tensor = (t2.conj() @ t1).squeeze()
-        lst.append(qbit_tensor)
-    
-    for i in range(len(lst)-1):
-        if i == 0:
-            t = lst[i]
-            
-        t_nxt = lst[i+1]
-        if i != len(lst) - 2:
-            t_nxt = t_nxt.permute(2,3,0,1)
-        
-        t = t.unsqueeze(-2).unsqueeze(-4) #1212
-        t_nxt = t_nxt.unsqueeze(-1).unsqueeze(-3) #442121
-        
-        temp = t @ t_nxt #442211
-        temp = temp.squeeze() #4422
-        if i != len(lst) - 2:
-            '''
-            einsum高阶张量求迹，TZH我的超人！！！
-            '''
-            t = torch.einsum('abii->ab',temp)
-            # for k in range(temp.shape[2]):
-            #     if k == 0:
-            #         t = temp[:,:,0,0]
-            #     else:
-            #         t += temp[:,:,k,k]
-        else:
-            t = torch.trace(temp)
+        #t的两个指标分别是bra、ket的bond，从左到右逐个收缩qubit
+        t = torch.einsum('ab,iac,ibd->cd',t,braMPS[i].conj(),ketMPS[i])
+    t = t.squeeze()
     #返回的是内积，不是内积的模平方
     return t
 
-- 
2.43.0


From 38b21202790a1c92bd27682f13c489df0a70d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 14/25] fix: MPS2Rho normalises by the complex trace

The phase of the dropped last factor is arbitrary, so the trace before
normalisation is complex; dividing by its real part gave a wrong state.
---
 deepquantum/gates/qtensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 51497b3..4ae7965 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -259,7 +259,7 @@ def MPS2Rho(MPS:List[torch.Tensor])->torch.Tensor:
     混态密度矩阵，最后一个r_tensor的值小于1，该数值不能忽略，但MPS又不包含此信息；
     所以MPS2Rho，想恢复一个混态时，最后一步须对迹归一化；
     '''
-    trace = torch.trace(rho).real
+    trace = torch.trace(rho) #SVD的相位任意，此处的迹一般是复数
     return rho*(1.0/trace)
 
 
-- 
2.43.0


From 7fe8aba8258c945f303fedfda1f62df7ae13c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 15/25] fix: partial traces do not reorder the caller's list

---
 deepquantum/gates/qmath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 0c1fd99..d09fdfe 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -133,7 +133,7 @@ def partial_trace_old(rho,N,trace_lst):
     if len(trace_lst)!=0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
@@ -163,7 +163,7 @@ def partial_trace(rho, N, trace_lst):
     if len(trace_lst) != 0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
-- 
2.43.0


From 8e8f7e8290a963bb7f7688b603024d47bef4b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 16/25] fix: measure qubit 0 alone

ith=0 was taken for "not given" and measured every qubit.
---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index d09fdfe..d73420f 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -208,7 +208,7 @@ def _Zmeasure(n_qubit:int, ith=None):
     #生成测量力学量的列表
     #print(n_qubit,type(n_qubit))
     M_lst = []
-    if not ith:
+    if type(ith) != int and not ith:
         for i in range(n_qubit):
             Mi = dq.PauliZ(n_qubit, i).U_expand()
             M_lst.append(Mi)
-- 
2.43.0


From 7d22231bcc12104417d452ab00418ae7946e10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 17/25] fix: measure keeps the gradient

QuanConv2D trains through it, and its weights never received one.
---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index d73420f..c5adf1e 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -250,7 +250,7 @@ def measure(n_qubit, state, ith=None):
     M_lst = _Zmeasure(n_qubit, ith)
     for Mi in M_lst:
         measure_rst.append(expval(state, Mi, rho=rho))
-    return torch.tensor(measure_rst)
+    return torch.stack(measure_rst)
 
 if __name__ == '__main__':
     
-- 
2.43.0


From 7a873bcf512e08266b51173005524789217085c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 18/25] fix: QuanConv2D visits full windows only

When the image size is not a multiple of the stride the loops ran into
windows cut off by the border and failed.
---
 deepquantum/nn/modules/quanv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/nn/modules/quanv.py b/deepquantum/nn/modules/quanv.py
index f3a3014..1119d31 100644
--- a/deepquantum/nn/modules/quanv.py
+++ b/deepquantum/nn/modules/quanv.py
@@ -90,8 +90,8 @@ class QuanConv2D(nn.Module):
 
         out = torch.zeros((batch, out_channel, len_x_out, len_y_out))
         for batch_i in range(batch):
-            for j in range(0, len_x_in, self.stride):
-                for k in range(0, len_y_in, self.stride):
+            for j in range(0, len_x_out*self.stride, self.stride):
+                for k in range(0, len_y_out*self.stride, self.stride):
 
                     x = input[batch_i, 0, j:j+self.kernel_size, k:k+self.kernel_size].reshape(-1) #[batch,channel,x,y]
                     # print("x::", x, j, j+self.kernel_size, k, k+self.kernel_size)
-- 
2.43.0


From ea77cac221b8ddb120c88a0a0667348f2ee3efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:00 +0000
Subject: [PATCH 19/25] fix: legacy rxx, ryy and rzz accept qubit 0 as second
 target

0 was taken for "not given" and silently replaced by the neighbour of the
first target.
---
 deepquantum/gates/qgate.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 2690710..ee07c53 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -263,8 +263,6 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
 
@@ -283,8 +281,6 @@ class Circuit(object):
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
 
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
         assert target_qubit01 != target_qubit02, \
@@ -304,8 +300,6 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
 
-- 
2.43.0


From 728d7ea02bb87bb409d30fb2f444077b3f40bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 20/25] fix: stored-state gradient of circuits whose parameters
 require grad

Only leaf tensors can be deep-copied, so saving the intermediate states
failed.
---
 deepquantum/gates/qcircuit.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 13be809..0ef0490 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -72,7 +72,7 @@ class Circuit(object):
     def TN_evolution(self, MPS:List[torch.Tensor])->List[torch.Tensor]:
         if len(MPS) != self.nqubits:
             raise ValueError('TN_evolution:MPS tensor list must have N elements!')
-        #MPS1 = copy.deepcopy(MPS)
+        #MPS1 = [t.clone() for t in MPS]
         for idx,oper in enumerate(self.gate):
             #print(idx)
             if oper.supportTN == True:
@@ -376,7 +376,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != num_gates-1 and cir.gate[idx+1].num_params != 0:
-                    save_dict[idx] = copy.deepcopy(MPS)
+                    save_dict[idx] = [t.clone() for t in MPS]
             else:
                 raise ValueError(str(oper.info()['label'])
                                  +'-TN_evolution:some part of circuit do not support Tensor Network')
@@ -387,7 +387,7 @@ class parameter_shift(object):
         MPS = M_oper.TN_operation(MPS)
         #暂时只支持单比特PauliX、PauliY、PauliZ这些简单情况
         if cir.gate[num_gates-1].num_params != 0:
-            save_dict[num_gates-1] = copy.deepcopy(MPS)
+            save_dict[num_gates-1] = [t.clone() for t in MPS]
             
         
         
@@ -398,7 +398,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != 0 and cir.gate[idx-1].num_params != 0:
-                    save_dict[2*num_gates-idx-1] = copy.deepcopy(MPS)
+                    save_dict[2*num_gates-idx-1] = [t.clone() for t in MPS]
                     
             else:
                 raise ValueError(str(oper.info()['label'])
@@ -444,10 +444,10 @@ class parameter_shift(object):
                     gate.params_update(p + shift)
                     
                     if idx == 0:
-                        MPS = copy.deepcopy( init_MPS )
+                        MPS = [t.clone() for t in init_MPS]
                         MPS = gate.TN_operation( MPS )
                     else:
-                        MPS = copy.deepcopy( save_dict[idx-1] )
+                        MPS = [t.clone() for t in save_dict[idx-1]]
                         MPS = gate.TN_operation( MPS )
                     
                     psi1 = MPS2StateVec( MPS )
@@ -470,10 +470,10 @@ class parameter_shift(object):
                         gate.params_update(p)
                         #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
                         if idx == 0:
-                            MPS = copy.deepcopy( init_MPS )
+                            MPS = [t.clone() for t in init_MPS]
                             MPS = gate.TN_operation( MPS )
                         else:
-                            MPS = copy.deepcopy( save_dict[idx-1] )
+                            MPS = [t.clone() for t in save_dict[idx-1]]
                             MPS = gate.TN_operation( MPS ) #后面需要-1j修正
                         psi1 = MPS2StateVec( MPS )
                         psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-- 
2.43.0


From 993a6b02ef4d150d354c0b003febf180978f9e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 21/25] fix: gradients reach the parameters of reloaded gates

---
 deepquantum/gates/qoperator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index d5ba0c4..d9bc407 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -37,6 +37,13 @@ class Operator(object):
 
 class Operation(Operator):
     
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        #保存时params与matrix等各自脱离计算图，读取后由params重新计算，使梯度能够传到params
+        params = getattr(self, 'params', None)
+        if isinstance(params, torch.Tensor) and params.requires_grad:
+            self.params_update(params)
+    
     @staticmethod
     def two_qubit_control_gate(U,N,control,target):
         '''
-- 
2.43.0


From 4db1a60920e9e1fddea6420dc408f407d4439389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:56 +0000
Subject: [PATCH 22/25] fix: info() hands out copies of a gate's qubit lists

---
 deepquantum/gates/qoperator.py |  4 ++--
 deepquantum/layers/qlayers.py  | 22 +++++++++++-----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index d9bc407..74572d4 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -2195,7 +2195,7 @@ class toffoli(Operation):
     
     def info(self):
         #将门的信息整合后return，用来添加到circuit的gate_lst中
-        info = {'label':self.label, 'contral_lst':self.control_lst, 'target_lst':self.target_lst,'params':None}
+        info = {'label':self.label, 'contral_lst':list(self.control_lst), 'target_lst':list(self.target_lst),'params':None}
         return info
     
     def params_update(self,params):
@@ -2242,7 +2242,7 @@ class multi_control_cnot(Operation):
     
     def info(self):
         #将门的信息整合后return，用来添加到circuit的gate_lst中
-        info = {'label':self.label, 'contral_lst':self.control_lst, 'target_lst':self.target_lst,'params':None}
+        info = {'label':self.label, 'contral_lst':list(self.control_lst), 'target_lst':list(self.target_lst),'params':None}
         return info
     
     def params_update(self,params):
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index ea4bcf6..0b5820c 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -175,7 +175,7 @@ class XYZLayer(SingleGateLayer):
         return ZYXLayer(self.nqubits,self.wires,params_tensor)
         
     def info(self):
-        info = {'label':self.label, 'contral_lst':[], 'target_lst':self.wires,'params':self.params}
+        info = {'label':self.label, 'contral_lst':[], 'target_lst':list(self.wires),'params':self.params}
         return info
     
     def params_update(self,params_lst):
@@ -248,7 +248,7 @@ class ZYXLayer(SingleGateLayer):
         return XYZLayer(self.nqubits,self.wires,params_tensor)
         
     def info(self):
-        info = {'label':self.label, 'contral_lst':[], 'target_lst':self.wires,'params':self.params}
+        info = {'label':self.label, 'contral_lst':[], 'target_lst':list(self.wires),'params':self.params}
         return info
     
     def params_update(self,params_lst):
@@ -354,7 +354,7 @@ class YZYLayer(SingleGateLayer):
         return YZYLayer(self.nqubits,self.wires,params_tensor)
     
     def info(self):
-        info = {'label':self.label, 'contral_lst':[], 'target_lst':self.wires,'params':self.params}
+        info = {'label':self.label, 'contral_lst':[], 'target_lst':list(self.wires),'params':self.params}
         return info
     
     def params_update(self,params_lst):
@@ -434,7 +434,7 @@ class XZXLayer(SingleGateLayer):
         return XZXLayer(self.nqubits,self.wires,params_tensor)
     
     def info(self):
-        info = {'label':self.label, 'contral_lst':[], 'target_lst':self.wires,'params':self.params}
+        info = {'label':self.label, 'contral_lst':[], 'target_lst':list(self.wires),'params':self.params}
         return info
     
     def params_update(self,params_lst):
@@ -503,7 +503,7 @@ class XZLayer(SingleGateLayer):
         return ZXLayer(self.nqubits,self.wires,params_tensor)
     
     def info(self):
-        info = {'label':self.label, 'contral_lst':[], 'target_lst':self.wires,'params':self.params}
+        info = {'label':self.label, 'contral_lst':[], 'target_lst':list(self.wires),'params':self.params}
         return info
     
     def params_update(self,params_lst):
@@ -577,7 +577,7 @@ class ZXLayer(SingleGateLayer):
         return XZLayer(self.nqubits,self.wires,params_tensor)
     
     def info(self):
-        info = {'label':self.label, 'contral_lst':[], 'target_lst':self.wires,'params':self.params}
+        info = {'label':self.label, 'contral_lst':[], 'target_lst':list(self.wires),'params':self.params}
         return info
     
     def params_update(self,params_lst):
@@ -620,7 +620,7 @@ class HLayer(SingleGateLayer):
         return self
     
     def info(self):
-        info = {'label':self.label, 'contral_lst':[], 'target_lst':self.wires,'params':None}
+        info = {'label':self.label, 'contral_lst':[], 'target_lst':list(self.wires),'params':None}
         return info
     
     def params_update(self,params_lst):
@@ -779,7 +779,7 @@ class ring_of_cnot(TwoQbitGateLayer):
         if L == 2:
             info = {'label':self.label, 'contral_lst':[self.wires[0]], 'target_lst':[self.wires[1]],'params':None}
         else:
-            info = {'label':self.label, 'contral_lst':self.wires, 'target_lst':target_lst,'params':None}
+            info = {'label':self.label, 'contral_lst':list(self.wires), 'target_lst':target_lst,'params':None}
         return info
     
     def params_update(self,params_lst):
@@ -887,7 +887,7 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
         if L == 2:
             info = {'label':self.label, 'contral_lst':[self.wires[0]], 'target_lst':[self.wires[1]],'params':None}
         else:
-            info = {'label':self.label, 'contral_lst':self.wires, 'target_lst':target_lst,'params':None}
+            info = {'label':self.label, 'contral_lst':list(self.wires), 'target_lst':target_lst,'params':None}
         return info
     
     def params_update(self,params_lst):
@@ -953,7 +953,7 @@ class ring_of_cnot2(TwoQbitGateLayer):
         if L == 2:
             info = {'label':self.label, 'contral_lst':[self.wires[0]], 'target_lst':[self.wires[1]],'params':None}
         else:
-            info = {'label':self.label, 'contral_lst':self.wires, 'target_lst':target_lst,'params':None}
+            info = {'label':self.label, 'contral_lst':list(self.wires), 'target_lst':target_lst,'params':None}
         return info
     
     def params_update(self,params_lst):
@@ -1012,7 +1012,7 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         pass
         
     def info(self):
-        info = {'label':self.label, 'contral_lst':[], 'target_lst':self.wires, 'params':self.params}
+        info = {'label':self.label, 'contral_lst':[], 'target_lst':list(self.wires), 'params':self.params}
         return info
     
     def params_update(self,params_lst):
-- 
2.43.0


From 94ba4b5e60cd368fdf220978581ce1583dadba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:29 +0000
Subject: [PATCH 23/25] fix: PrepareRho of complex amplitudes is a density
 matrix

The outer product lacked the complex conjugate: for amplitudes that are
not real the result was neither Hermitian nor of unit trace.
---
 deepquantum/embeddings/qstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/embeddings/qstate.py b/deepquantum/embeddings/qstate.py
index e1d90b9..2fbe998 100644
--- a/deepquantum/embeddings/qstate.py
+++ b/deepquantum/embeddings/qstate.py
@@ -11,7 +11,7 @@ def PrepareState(state):
 
 def PrepareRho(state):
     basic_rho = PrepareState(state).unsqueeze(0)
-    return basic_rho.T @ basic_rho  # out-produt
+    return basic_rho.T @ basic_rho.conj()  # out-produt
 
 
 
-- 
2.43.0


From c82367725abbc21a483d64eee763f981a6a59c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:55 +0000
Subject: [PATCH 24/25] fix: parameter-shift and adjoint gradients of gates
 with integer parameters

The copy of the parameters kept their integer type, so the shifts of
pi/2 and pi were truncated and the gradient was wrong.
---
 deepquantum/gates/qcircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 0ef0490..0c59316 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -317,7 +317,7 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = gate.params.detach().clone()
+            p = gate.params.detach() + 0.0 #新的张量；整数参数转为浮点，否则平移量会被取整
             if len(p.shape) == 0:
                 #只有单个参数
                 grad = 0.0
@@ -436,7 +436,7 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = gate.params.detach().clone()
+            p = gate.params.detach() + 0.0 #新的张量；整数参数转为浮点，否则平移量会被取整
             if len(p.shape) == 0:
                 #只有单个参数
                 grad = 0.0
-- 
2.43.0


From 61210259197bc96e9300629a7aff25b4549785e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:56 +0000
Subject: [PATCH 25/25] fix: save_mid_MPS of a circuit without gates raised
 IndexError

Its gradient is the empty vector, as cal_params_grad returns.
---
 deepquantum/gates/qcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 0c59316..4ea8ced 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -386,7 +386,7 @@ class parameter_shift(object):
         #如果M_oper只满足厄米，不满足幺正，那么就没有TN_operation给你用了，要自己写M_oper对MPS的作用
         MPS = M_oper.TN_operation(MPS)
         #暂时只支持单比特PauliX、PauliY、PauliZ这些简单情况
-        if cir.gate[num_gates-1].num_params != 0:
+        if num_gates != 0 and cir.gate[num_gates-1].num_params != 0:
             save_dict[num_gates-1] = [t.clone() for t in MPS]
             
         
-- 
2.43.0

