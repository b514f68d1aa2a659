From 105479c66345785fd468bc3fa7f655512f02d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 001/106] fix: re-terminating a port of a solved circuit kept
 the old S-matrix

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index bb09306..85c480f 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -916,7 +916,7 @@ class rfCircuit(rfBase):
         
             idxA, idxB, eqn = self.T[port]
             self.M[eqn, idxB] = rho
-            self.invM = None
+            self.invM, self.S = None, None
         
         elif port in self.E:
             # this port was and external port
-- 
2.43.0


From 54664af7955e2fa0b856fc61e4b8ed44d15e9b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 002/106] fix: terminate raised NameError instead of reporting
 an unknown or used port

---
 src/pyRFtk/rfCircuit.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 85c480f..f40b6d2 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -886,9 +886,10 @@ class rfCircuit(rfBase):
         try:        
             idxA = self.waves.index('->'+port)
             idxB = self.waves.index('<-'+port) 
-        except ValueError as e:
-            msg = e.message if hasattr(e,'message') else e
-            print(f'circuit.terminate: port not found: {msg}')
+        except ValueError:
+            raise ValueError(
+                f'{whoami(__package__)}: port {port} not found'
+            ) from None
        
         if len(kwargs) > 1:
             raise ValueError(
@@ -960,10 +961,10 @@ class rfCircuit(rfBase):
                 self.ports.pop(_kp)
                 self.xpos.pop(_kp)
                 
-            except IndexError:
+            except ValueError:
                 raise ValueError(
                     f'{whoami(__package__)}: port {port} already in use'  
-                )
+                ) from None
         
             # add a row to self.M
             self.M = np.vstack((
-- 
2.43.0


From 4ad04bd58004b75b69d5a0c6467365ef9081b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 003/106] fix: connect left a half modified circuit behind when
 a port was not available

---
 src/pyRFtk/rfCircuit.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f40b6d2..f705f07 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -797,6 +797,21 @@ class rfCircuit(rfBase):
         oldports = [p for p in ports if ('->'+p) in self.waves]
         _debug_ and tLogger.debug(ident(f'old ports: {", ".join(oldports)}', 0))
         
+        # refuse invalid requests before anything is modified
+        if not oldports:
+            raise ValueError(
+                f'{whoami(__package__)}: at least one existing port is needed'
+            )
+        if len(set(ports)) != len(ports):
+            raise ValueError(
+                f'{whoami(__package__)}: duplicate ports in {", ".join(ports)}'
+            )
+        usedports = [p for p in oldports if p not in self.ports]
+        if usedports:
+            raise ValueError(
+                f'{whoami(__package__)}: ports already in use: {", ".join(usedports)}'
+            )
+        
         for p in newports:
             self.waves.append('->'+p)
             self.waves.append('<-'+p) 
-- 
2.43.0


From c576f41f756fb190b91828bd21621385cfde34ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 004/106] fix: addblock replacement size mismatch raised
 KeyError while building its message

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f705f07..b4cb362 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -603,7 +603,7 @@ class rfCircuit(rfBase):
             if len(RFobj) != len(self.blocks[name]['object']):
                 raise ValueError(
                     f'{whoami(__package__)}: [update {name}] number of ports mismatch: ' 
-                    f'existing {len(self.blocks["object"])}, new {len(RFobj)}')
+                    f'existing {len(self.blocks[name]["object"])}, new {len(RFobj)}')
             
             #TODO: maybe some other checks are in order / necessary
             
-- 
2.43.0


From d4840e15aa92be1a7489ad70a4c5180a816765fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 005/106] fix: addblock modified and kept references to the
 caller's ports and params

---
 src/pyRFtk/rfCircuit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index b4cb362..06fc911 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -2,6 +2,7 @@ __updated__ = "2026-05-19 11:11:41"
 
 #FIXME: addblock of a np.array fails because of xpos issues (also __str__ fails)
 
+import copy
 import numpy as np
 import matplotlib.pyplot as plt
 import warnings
@@ -592,7 +593,7 @@ class rfCircuit(rfBase):
             subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)
             self.blocks[name]['object'] = subblockobj
             if '.' not in subblock:
-                self.blocks[name]['params'] = params
+                self.blocks[name]['params'] = copy.deepcopy(params)
                 
             _debug_ and logident(
                 f'< [circuit.addblock] (replaced at a deeper level)', -1
@@ -623,6 +624,7 @@ class rfCircuit(rfBase):
         if hasattr(RFobj,'ports'):
             ports = {} if ports is None else ports
             if isinstance(ports, dict):
+                ports = dict(ports) # do not empty the caller's dict
                 # remap port names (note: empty dict pulls the object's portnames)
                 oports = [ports.pop(_p, _p) for _p in RFobj.ports]
                 # possibly the user supplied non-existing port names
@@ -641,7 +643,7 @@ class rfCircuit(rfBase):
                      'attribute. Therfore a dict port mapping cannot be used.')
                 
             elif isinstance(ports, list):
-                oports = ports
+                oports = list(ports)
     
             elif isinstance(ports, str):
                 oports = [ports % k for k in range(1,N+1)]
@@ -672,7 +674,7 @@ class rfCircuit(rfBase):
         #     xpos += np.zeros(len(oports))
             
         self.blocks[name] = {
-            'params' : params,
+            'params' : copy.deepcopy(params),
             'ports'  : oports,
             'loc'    : self.M.shape,
             'object' : RFobj,
-- 
2.43.0


From f84ffc75248fb677afd1cb088d183361e3c5bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 006/106] fix: announced port order was not applied to
 excitations, positions and copies

---
 src/pyRFtk/rfCircuit.py | 65 ++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 06fc911..383504e 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -78,7 +78,7 @@ class rfCircuit(rfBase):
         sNp = kwargs.pop('sNp', None)
         
         # why Portnames ? ports is processed already by rfBase
-        self.Portnames = kwargs.pop('Portnames', [])
+        self.Portnames = list(kwargs.pop('Portnames', []))
         
         if kwargs and type_rfCircuit:
             msg = f'unprocessed kwargs: {", ".join([kw for kw in kwargs])}'
@@ -955,6 +955,7 @@ class rfCircuit(rfBase):
             _kp = self.ports.index(port)
             self.ports.pop(_kp)
             self.xpos.pop(_kp)
+            self.Portnames = [p for p in self.Portnames if p != port]
             self.invM = None
             self.S = None
                         
@@ -1018,6 +1019,28 @@ class rfCircuit(rfBase):
             1
         ))
         
+        # if external port names are available we use that ordering
+        if self.Portnames:
+            if len(self.Portnames) != len(self.ports):
+                raise ValueError(
+                    f'{whoami(__package__)}: incompatible number of anounced ports set '  
+                    f'via kwarg Portnames [{len(self.Portnames)}] and the resolved '
+                    f'number of free external ports [{len(self.ports)}].'
+                )
+            else:
+                for p in self.ports:
+                    if p not in self.Portnames:
+                        raise ValueError(
+                            f'{whoami(__package__)}: resolved free port name {p} not found '  
+                            f'in list of announced port names'
+                        )
+            # use external port ordering (the positions follow their ports)
+            self.xpos = [self.xpos[self.ports.index(p)] for p in self.Portnames]
+            self.ports = list(self.Portnames)
+            
+        else:
+            self.Portnames = list(self.ports)
+                            
         if self.M.shape[0] != self.M.shape[1]:
             _debug_ and tLogger.debug(ident(f'M is not square {self.M.shape}'))
             self.S = None
@@ -1026,27 +1049,6 @@ class rfCircuit(rfBase):
             # the external ports
             self.idxEs = []
             
-            # if external port names are available we use that ordering
-            if self.Portnames:
-                if len(self.Portnames) != len(self.ports):
-                    raise ValueError(
-                        f'{whoami(__package__)}: incompatible number of anounced ports set '  
-                        f'via kwarg Portnames [{len(self.Portnames)}] and the resolved '
-                        f'number of free external ports [{len(self.ports)}].'
-                    )
-                else:
-                    for p in self.ports:
-                        if p not in self.Portnames:
-                            raise ValueError(
-                                f'{whoami(__package__)}: resolved free port name {p} not found '  
-                                f'in list of announced port names'
-                            )
-                # use external port ordering
-                self.ports = self.Portnames
-                
-            else:
-                self.Portnames = self.ports                   
-                            
             for p in self.ports:                
                 self.M = np.vstack((
                     self.M,
@@ -1442,6 +1444,9 @@ class rfCircuit(rfBase):
         ))
         Zbase = self.Zbase if Zbase is None else Zbase
         
+        # (implicitly updates and solves the circuit and fixes the port order)
+        S = self.getS(f,Zbase,flags=flags)
+        
         # incident voltage waves @  Zbase to the circuits feed ports
         Ea = [E[p] for p in self.ports]
         if _debug_ :
@@ -1449,7 +1454,7 @@ class rfCircuit(rfBase):
             tLogger.debug(ident(f'Ea = {Ea}'))
         
         # reflected voltage waves @ Zbase from the circuit's feed ports
-        Eb = self.getS(f,Zbase,flags=flags) @ Ea  # (implicitly updates and solves the circuit)
+        Eb = S @ Ea
         
         # incident voltage waves @ self.Zbase
         Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  
@@ -1507,14 +1512,17 @@ class rfCircuit(rfBase):
         
         Zbase = self.Zbase if Zbase is None else Zbase
         
+        # (implicitly updates and solves the circuit and fixes the port order)
+        # unless gtl is True the sNp based value for S is returned
+        S = self.getS(f,Zbase,flags=flags)
+        
         # incident voltage waves @  Zbase to the circuits feed ports
         # Ea is a list of excitations in the order of definition of the 
         #    ports of the object
         Ea = [E[p] for p in self.ports]
         
         # reflected voltage waves @ Zbase from the circuit's feed ports
-        # unless gtl is True the sNp based value for S is returned
-        Eb = self.getS(f,Zbase,flags=flags) @ Ea  # (implicitly updates and solves the circuit)
+        Eb = S @ Ea
         
         # incident voltage waves @ self.Zbase
         Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  
@@ -1714,6 +1722,10 @@ class rfCircuit(rfBase):
             
         Zbase = self.Zbase if Zbase is None else Zbase
         
+        # implicitly updates and solves the circuit and fixes the port order
+        # except if a sNp is present but in that case ...
+        S = self.getS(f, Zbase, flags=flags)
+        
         try:
             Ea = [E[p] for p in self.ports]
         except KeyError:
@@ -1723,8 +1735,7 @@ class rfCircuit(rfBase):
             ) from None
         
         # print('pyRFtk2.circuit.maxV')
-        Eb = self.getS(f, Zbase, flags=flags) @ Ea   # implicitly updates and solves the circuit
-                                        # except if a sNp is present but in that case ...
+        Eb = S @ Ea
 
         # Ei are the forward waves into the circuit's ports at self.Zbase
         Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2 
-- 
2.43.0


From b0fc34642848e8bf5dddf2023f0eb62c12ba5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 007/106] fix: getS returned a stale S-matrix after params,
 block or port order changes

---
 src/pyRFtk/rfCircuit.py | 62 +++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 383504e..78d4c20 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1296,38 +1296,46 @@ class rfCircuit(rfBase):
                            ('flag sNp set to False' if 'sNp' in flags else '(why?)'))
                     tLogger.debug(ident(f'not using sNp: {msg}'))
                     
-                if f != self.f or self.S is None or self.flags != flags:
+                # the last solution is only still valid if nothing it depends
+                # on changed: this includes the (possibly shared) blocks, the
+                # supplied params and the announced port order
+                
+                solved = (f == self.f and self.S is not None 
+                          and self.invM is not None and self.flags == flags
+                          and self.ports == list(self.Portnames))
                     
-                    # we need to recompute the S-matrix
+                for blkID, blk in self.blocks.items():
+                    _debug_ and tLogger.debug(ident(
+                        f'getting S for {blkID}'
+                    ))
+                                    
+                    i1, i2 = blk['loc']
+                    N = len(blk['ports'])
                     
-                    for blkID, blk in self.blocks.items():
-                        _debug_ and tLogger.debug(ident(
-                            f'getting S for {blkID}'
-                        ))
-                                        
-                        i1, i2 = blk['loc']
-                        N = len(blk['ports'])
-                        
-                        if hasattr(blk['object'], 'getS'):
-                            try:
-                                blk['object'].set(**params.get(blkID,{}))
-                            except AttributeError:
-                                pass
-                            # recursively get the lower level S-matrices
-                            S = blk['object'].getS(f, Zbase=self.Zbase, 
-                                                   params=blk['params'], 
-                                                   flags=flags)
-                        else:
-                            # this is when the object is a np.array
-                            S = blk['object']
-                        
+                    if hasattr(blk['object'], 'getS'):
+                        try:
+                            blk['object'].set(**params.get(blkID,{}))
+                        except AttributeError:
+                            pass
+                        # recursively get the lower level S-matrices
+                        S = blk['object'].getS(f, Zbase=self.Zbase, 
+                                               params=blk['params'], 
+                                               flags=flags)
+                    else:
+                        # this is when the object is a np.array
+                        S = blk['object']
+                    
+                    if not np.array_equal(self.M[i1:i1+N,i2:i2+N], S):
                         self.M[i1:i1+N,i2:i2+N] = S
-                                                        
+                        solved, self.S = False, None
+                
+                if not solved:
+                    # we need to recompute the S-matrix
                     M = self.extS()
                     self.f, self.S, self.flags = f, M, flags.copy()
-                    
-                else:
-                    M = self.S
+                
+                # do not let the caller modify the stored solution
+                M = self.S.copy()
 
             if Zbase and Zbase != self.Zbase:
                 M = ConvertGeneral(Zbase,M,self.Zbase)
-- 
2.43.0


From 01fa3d346852f203e5c122c94e8006c44cd6df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 008/106] fix: Solution failed for nested circuits whose ports
 were renamed by addblock

---
 src/pyRFtk/rfCircuit.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 78d4c20..05000f6 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1619,16 +1619,10 @@ class rfCircuit(rfBase):
                 if hasattr(obj, 'Solution') and (snodesleft != []):   
                     # -> build the excitation to pass on to the Solution method.    
                     
+                    # (the object's ports may have been renamed by addblock)
                     Ek = {}
-                    for pobj in obj.ports:
-                        try:
-                            Ek[pobj] = self.tSol[f'{blkID}.{pobj}'][2]
-                            # print(f'[OK] {blkID}.{pobj} -> {Ek[pobj]:7.3f}')
-                        except KeyError:
-                            for k, s in self.tSol.items():
-                                print(f'[EE] {k:30s} -> {s[2]:7.3f}')
-                            print(f'{whoami(__package__)}')  
-                            raise
+                    for pobj, pblk in zip(obj.ports, blk['ports']):
+                        Ek[pobj] = self.tSol[f'{blkID}.{pblk}'][2]
     
                     if _debug_:
                         tLogger.debug(ident(f'  port excitations:'))
-- 
2.43.0


From ff0864f4d109a1c2eee882b0cdb5de317d867744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 009/106] fix: ports of a nested circuit with an announced port
 order were mislabeled

---
 src/pyRFtk/rfCircuit.py | 42 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 05000f6..f8e8d96 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -620,6 +620,10 @@ class rfCircuit(rfBase):
         #
         N = len(RFobj)
         
+        # the ports of a circuit must be in the order it will return them
+        if hasattr(RFobj, '_orderports'):
+            RFobj._orderports()
+        
         oports = []
         if hasattr(RFobj,'ports'):
             ports = {} if ports is None else ports
@@ -1005,20 +1009,11 @@ class rfCircuit(rfBase):
 
     #===========================================================================
     #
-    # e x t S
+    # _ o r d e r p o r t s
     #
-    def extS(self):
-        """returns the S-matrix solution of the current state of the 
-        circuit matrix for the circuit's base impedance (self.Zbase)
-        it is called after e.g. getS(f, Zbase, params) has recursively
-        filled all the circuit's block S-matrices in its matrix.
+    def _orderports(self):
+        """applies the announced order (Portnames) to the external ports
         """
-        _debug_ = logit['DEBUG']
-        _debug_ and tLogger.debug(ident(
-            f'> [circuit.extS] ',
-            1
-        ))
-        
         # if external port names are available we use that ordering
         if self.Portnames:
             if len(self.Portnames) != len(self.ports):
@@ -1037,8 +1032,27 @@ class rfCircuit(rfBase):
             # use external port ordering (the positions follow their ports)
             self.xpos = [self.xpos[self.ports.index(p)] for p in self.Portnames]
             self.ports = list(self.Portnames)
-            
-        else:
+        
+    #===========================================================================
+    #
+    # e x t S
+    #
+    def extS(self):
+        """returns the S-matrix solution of the current state of the 
+        circuit matrix for the circuit's base impedance (self.Zbase)
+        it is called after e.g. getS(f, Zbase, params) has recursively
+        filled all the circuit's block S-matrices in its matrix.
+        """
+        _debug_ = logit['DEBUG']
+        _debug_ and tLogger.debug(ident(
+            f'> [circuit.extS] ',
+            1
+        ))
+        
+        # if external port names are available we use that ordering
+        self._orderports()
+        
+        if not self.Portnames:
             self.Portnames = list(self.ports)
                             
         if self.M.shape[0] != self.M.shape[1]:
-- 
2.43.0


From 19c3f450b799bfb2263955f0a4666a5a3a1ac700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 010/106] fix: deembed lost track of port positions and left a
 half modified circuit on errors

---
 src/pyRFtk/rfCircuit.py | 51 ++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f8e8d96..9d9be51 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -439,7 +439,27 @@ class rfCircuit(rfBase):
                     f'{whoami(__package__)}: {typ}Ports: expecting dict or '
                     'list of tuples to remap port names'
                 )
-            
+        
+        # refuse invalid requests before anything is modified
+        
+        avail = list(self.ports)
+        for dp, ip in IntPorts:
+            if ip in avail or f'->{ip}' in self.waves:
+                raise ValueError(
+                    f'{whoami(__package__)}: (internal) port {ip} already exists '
+                )
+            if dp not in avail:
+                raise ValueError(
+                    f'{whoami(__package__)}: (external) port {dp} does not exist'
+                )
+            avail.remove(dp)
+        
+        for p in [p for t in ExtPorts for p in t]:
+            if p not in avail:
+                raise ValueError(
+                    f'{whoami(__package__)}: (external) port {p} does not exist'
+                )
+            avail.remove(p)
         
         # add the columns for the internal ports
         
@@ -453,20 +473,11 @@ class rfCircuit(rfBase):
           
         for dp, ip in IntPorts:
             
-            if ip in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (internal) port {ip} already exists '
-                )
-            
-            # create the new internal port
+            # create the new internal port at the position of the replaced one
             self.waves += [f'->{ip}', f'<-{ip}']
             self.ports.append(ip)
+            self.xpos.append(self.xpos[self.ports.index(dp)])
                         
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
             idxA = self.waves.index(f'->{dp}')
             idxB = self.waves.index(f'<-{dp}')
             
@@ -482,6 +493,7 @@ class rfCircuit(rfBase):
             self.M[-1, len(self.waves)-2] = -1
             
             # remove the deembeded port
+            self.xpos.pop(self.ports.index(dp))
             self.ports.pop(self.ports.index(dp))
             
             # update the equation types
@@ -491,16 +503,6 @@ class rfCircuit(rfBase):
         
         for dp, ep in ExtPorts:
             
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
-            if ep not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {ep} does not exist'
-                )
-                
             # add two rows to self.M
             self.M = np.vstack((
                 self.M, 
@@ -523,8 +525,9 @@ class rfCircuit(rfBase):
             self.eqns.append(f'De {ep}')
             
             # now we need to remove the remaining ports of the port list
-            self.ports.pop(self.ports.index(dp))
-            self.ports.pop(self.ports.index(ep))
+            for p in (dp, ep):
+                self.xpos.pop(self.ports.index(p))
+                self.ports.pop(self.ports.index(p))
                         
         _debug_ and tLogger.debug(ident(
             f'< [circuit.deembed]', -1
-- 
2.43.0


From 3b98fcd91e74e55dbf4ca9bf16de61954344038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 011/106] fix: positions of array blocks and of no longer
 external nodes could not be found (maxV failed)

---
 src/pyRFtk/rfCircuit.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 9d9be51..548e7f2 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -477,6 +477,7 @@ class rfCircuit(rfBase):
             self.waves += [f'->{ip}', f'<-{ip}']
             self.ports.append(ip)
             self.xpos.append(self.xpos[self.ports.index(dp)])
+            self.nodes[ip] = self.xpos[-1]
                         
             idxA = self.waves.index(f'->{dp}')
             idxB = self.waves.index(f'<-{dp}')
@@ -750,7 +751,7 @@ class rfCircuit(rfBase):
 
         :param node: The node
         """
-        relpos, obj = 0., self
+        relpos, obj, block = 0., self, None
         while '.' in node:
             try:
                 onode = node # belts and braces :)
@@ -764,12 +765,20 @@ class rfCircuit(rfBase):
             except KeyError:
                 # because the node's toplevel block is this self self ?
                 return self.getpos(node)
-        try:  
-            kp =block['ports'].index(node)
-        except:
+        if block is not None and node in block['ports']:
+            kp = block['ports'].index(node)
+        elif node in getattr(obj, 'ports', []):
             kp = obj.ports.index(node)
+        elif node in getattr(obj, 'nodes', {}):
+            # a node created by connect or deembed that is not external anymore
+            return relpos + obj.nodes[node]
+        else:
+            raise ValueError(
+                f'{whoami(__package__)}: node {node} not found'
+            )
             
-        return relpos + obj.xpos[kp]
+        # a numpy array has no port positions of its own
+        return relpos + (obj.xpos[kp] if hasattr(obj, 'xpos') else 0.)
                 
     #===========================================================================
     #
@@ -828,6 +837,7 @@ class rfCircuit(rfBase):
             # here we need to make assumptions on the position of the new port
             # -> we take the position of the first port in the list
             self.xpos.append(self.getpos(oldports[0]))
+            self.nodes[p] = self.xpos[-1]
             
         _debug_ and tLogger.debug(ident(f'self.ports = {", ".join(self.ports)}', 0))
         
-- 
2.43.0


From 72b4ff3f73372cd2b6174b18354ca63e28f7afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 012/106] fix: printing and debug logging failed for array
 blocks and nested set calls

---
 src/pyRFtk/rfCircuit.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 548e7f2..6c3f109 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -198,8 +198,8 @@ class rfCircuit(rfBase):
                         s +=  f'|   {blkID}: \n'
                         #fixme: embellish this type of block
                         mx = max([len(_p) for _p in blk['ports']])
-                        for _p, _x in zip(blk['ports'], blk['xpos']):
-                            s += f'|   |   {_p:{mx+1}s} @ {_x:7.4f}m\n'
+                        for _p in blk['ports']:
+                            s += f'|   |   {_p:{mx+1}s} @ {blk["xpos"]:7.4f}m\n'
                         s += f'|   |\n'
 
                         s += f'+   fixed numpy array like at {thisid}\n'
@@ -563,7 +563,7 @@ class rfCircuit(rfBase):
         _debug_ = logit['DEBUG'] 
         _debug_ and tLogger.debug(ident(
             f'> [circuit.addblock] '
-            f'name= {name}, RFobj= {RFobj.Id}, '
+            f'name= {name}, RFobj= {getattr(RFobj, "Id", type(RFobj).__name__)}, '
             f'ports= {ports}, params={params}, kwargs= {kwargs}',
             1
         ))
@@ -1268,9 +1268,8 @@ class rfCircuit(rfBase):
             except:
                 raise
             
-            attr = [kw for kw in val][0]
             debug and logident(
-                f'{obj.Id}.{attr} -> {getattr(obj,attr)}'
+                f'{obj.Id}: {val}'
             )
                        
         if modified:
-- 
2.43.0


From f3711c4897e0ae6e254590c0d04eff02b0374494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 013/106] fix: rfRLC emptied the caller's params and had no
 length after set

---
 src/pyRFtk/rfRLC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 46d83db..9dd6d3d 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -147,7 +147,7 @@ class rfRLC():
     # _ _ l e n _ _
     #
     def __len__(self):
-        return len(self.S)
+        return len(self.ports)
     
     #===========================================================================
     #
@@ -184,7 +184,7 @@ class rfRLC():
             Zbase = self.Zbase
         
         for p in ['Rs','Ls','Cs','Rp','Lp','Cp']:
-            setattr(self, p, params.pop(p, getattr(self, p)))
+            setattr(self, p, params.get(p, getattr(self, p)))
             
         def get1S(f):
             self.f = f
-- 
2.43.0


From b235507a42ca5f7ff289a32fdc908b2fa5b5658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 014/106] fix: rfRLC at zero frequency failed or ignored the
 reference impedance

---
 src/pyRFtk/rfRLC.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 9dd6d3d..7b09b6b 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -202,14 +202,14 @@ class rfRLC():
                              [  1 - zs ,  -1   ]])
             else:
                 if self.Cs == +np.inf:
-                    zs = self.Rs
+                    zs = self.Rs/Zbase
                     if self.Lp == +np.inf:
                         # (s) -- Rs --+-- (p)
                         #             |
                         #             Rp
                         #             |
                         #            Gnd
-                        yp = 1/self.Rp
+                        yp = Zbase/self.Rp
                         self.S = np.linalg.inv(
                                 [[     1   , 1 + yp],
                                  [-(1 + zs),   1   ]]
@@ -223,7 +223,7 @@ class rfRLC():
                         self.S = np.array(
                             [[ (self.Rs-Zbase)/(self.Rs + Zbase) , 0j ],
                              [               0j                  , -1 ]],
-                            dtype=np.complex)                   
+                            dtype=complex)                   
                 else:
                     if self.Lp == +np.inf:
                         # (s) -- OO --+-- (p)
@@ -237,12 +237,12 @@ class rfRLC():
                             rcp = +1
                         self.S = np.array(
                             [[1, 0j],[0j, rcp ]],
-                            dtype=np.complex)
+                            dtype=complex)
                     else:
                         # (s) -- OO --+-- (p)
                         #             |
                         #            Gnd
-                        self.S = np.array([[1, 0j], [0j, -1]], dtype=np.complex)
+                        self.S = np.array([[1, 0j], [0j, -1]], dtype=complex)
             return self.S
         
         Ss = []
-- 
2.43.0


From 6fe00dd4703153bab31c5f31a89d975766a1f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 015/106] fix: set applied part of the settings before refusing
 an unknown attribute

---
 src/pyRFtk/rfBase.py | 24 +++++++++++-------------
 src/pyRFtk/rfRLC.py  |  5 +++--
 src/pyRFtk/rfTRL.py  |  3 ++-
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index e6367b0..8104154 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -215,23 +215,21 @@ class rfBase():
         """set attributes of the object if present
         """
         modified = False
-        for kw, val in kwargs.items():
-            try:
-                if kw in self.attrs:
-                    if hasattr(self, kw):
-                        modified |= getattr(self, kw) != val
-                        setattr(self, kw, val)
-                    else:
-                        raise ValueError(
-                            f'{whoami(__package__)}: {self.Id} has no attribute {kw}'  # @UndefinedVariable
-                        )
-                else:
-                    raise AttributeError()
-            except AttributeError:
+        for kw in kwargs: # check all before modifying any
+            if kw not in self.attrs:
                 raise ValueError(
                         f'{whoami(__package__)}: attribute {kw} of {self.Id} '  # @UndefinedVariable
                         'cannot be set'
                     )
+            if not hasattr(self, kw):
+                raise ValueError(
+                    f'{whoami(__package__)}: {self.Id} has no attribute {kw}'  # @UndefinedVariable
+                )
+        
+        for kw, val in kwargs.items():
+            modified |= getattr(self, kw) != val
+            setattr(self, kw, val)
+        
         if modified:
             self.f, self.S = None, None
             
diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 7b09b6b..a0876ea 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -159,10 +159,11 @@ class rfRLC():
         _debug_ and logident('>', printargs=True)
 
         modified = False
-        for kw, val in kwargs.items():
+        for kw in kwargs: # check all before modifying any
             if not hasattr(self, kw) or kw not in self.attrs:
-                raise ValueError(f'rfTRL.set: parameter {kw} not present')
+                raise ValueError(f'rfRLC.set: parameter {kw} not present')
         
+        for kw, val in kwargs.items():
             modified |= getattr(self, kw) != val
             setattr(self, kw, val)
             self.kwargs[kw] = val
diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 1577ea2..9548694 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -348,11 +348,12 @@ class rfTRL():
                 f'{whoami(__package__)}: not possible because the transmission '  # @UndefinedVariable
                              'line parameters are not constant')
         modified = False
-        for kw, val in kwargs.items():
+        for kw in kwargs: # check all before modifying any
             if not hasattr(self, kw):
                 raise ValueError(
                     f'{whoami(__package__)}: parameter {kw} not present')  # @UndefinedVariable
                 
+        for kw, val in kwargs.items():
             modified |= getattr(self,kw) != val
             setattr(self, kw, val)
             self.kwargs[kw] = val
-- 
2.43.0


From 43d65eb23571c3157b01691a8391e38b7942a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 016/106] fix: set did not accept the documented dict argument

---
 src/pyRFtk/rfCircuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 6c3f109..da85893 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1207,6 +1207,9 @@ class rfCircuit(rfBase):
                 
                 if isinstance(ak, tuple) and len(ak) == 2:
                     kwargs = dict([ak], **kwargs)
+                
+                elif isinstance(ak, dict):
+                    kwargs = dict(ak, **kwargs)
                     
                 elif isinstance(ak,str) and len(largs)>0:
                     vk = largs.pop(0)
-- 
2.43.0


From 8c51b9f35d3e4b5f04d3d8b5ceed909d4407b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 017/106] fix: a refused circuit set request left part of its
 settings applied

---
 src/pyRFtk/rfCircuit.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index da85893..d6489e0 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1126,6 +1126,29 @@ class rfCircuit(rfBase):
         _debug_ and tLogger.debug(ident(f'< [circuit.extS]',-1))
         return self.S
     
+    #===========================================================================
+    #
+    # _ s e t v a l u e s ,  _ r e s t o r e v a l u e s
+    #
+    def _setvalues(self):
+        """list of (object, {attr:value}) of all objects nested in the circuit
+        """
+        saved = []
+        for blk in self.blocks.values():
+            obj = blk['object']
+            if hasattr(obj, '_setvalues'):
+                saved += obj._setvalues()
+            elif hasattr(obj, 'set') and hasattr(obj, 'attrs'):
+                saved.append((obj, dict((a, getattr(obj, a)) for a in obj.attrs)))
+        return saved
+    
+    def _restorevalues(self, saved):
+        for obj, values in saved:
+            changed = dict((a, v) for a, v in values.items() 
+                           if getattr(obj, a) != v)
+            if changed:
+                obj.set(**changed)
+    
     #===========================================================================
     #
     # s e t 
@@ -1228,6 +1251,9 @@ class rfCircuit(rfBase):
         # progess the kwargs
         debug and logident('starting kwargs loop ...')
 
+        # remember the present values to undo a partially applied request
+        saved = self._setvalues()
+        
         processed = []
         for kw, val in kwargs.items():
             
@@ -1242,6 +1268,7 @@ class rfCircuit(rfBase):
                 try:
                     kw, attr = kw.rsplit('.',1)
                 except:
+                    self._restorevalues(saved)
                     raise ValueError(
                         f'{whoami(__package__)}: {self.Id} '
                         f'as the value supplied is not a dict the object locator'
@@ -1252,9 +1279,9 @@ class rfCircuit(rfBase):
                  
             # kw now points to an object
             block, rest = (kw.split('.',1) + [''])[:2]
-            obj = self.blocks[block]['object']
             # recursively call the block's set method
             try:
+                obj = self.blocks[block]['object']
                 if rest:
                     # block is a rfCircuit itself
                     modified |= obj.set(rest, val)
@@ -1264,11 +1291,13 @@ class rfCircuit(rfBase):
                     modified |= obj.set(**val)
                     
             except AttributeError:
+                self._restorevalues(saved)
                 raise ValueError(
-                    f'{whoami(__package__)}: {obj.Id} has no \'set\' attribute'
+                    f'{whoami(__package__)}: {block} has no \'set\' attribute'
                 )
             
             except:
+                self._restorevalues(saved)
                 raise
             
             debug and logident(
-- 
2.43.0


From 1f68c6f25f5d17609837009faa8a811648eec4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 018/106] fix: rfArcObj had no port by default, failed for its
 default inductance and returned a scalar

---
 src/pyRFtk/rfArcObj.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index f9e0e89..be6bd2b 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -50,7 +50,8 @@ class rfArcObj(rfBase):
             
         _debug_ and logident(f'{kwargs}')
         
-        super().__init__(**kwargs)
+        # an rfArcObj has one port
+        super().__init__(**dict(kwargs, ports=kwargs.get('ports', ['1'])))
         
         _debug_ and logident(f'{kwargs}')
         
@@ -81,7 +82,11 @@ class rfArcObj(rfBase):
     #
     def get1S(self, f):
         
-        jwL = 2j * np.pi * f  * self.Larc
-        Ss = (jwL - self.Zbase) / (jwL + self.Zbase)
+        if np.isinf(self.Larc):
+            rho = 1. # no arc
+        else:
+            jwL = 2j * np.pi * f  * self.Larc
+            rho = (jwL - self.Zbase) / (jwL + self.Zbase)
+        Ss = np.array([[rho]], dtype=complex)
         self.f, self.S = f, Ss
         return Ss
-- 
2.43.0


From f32c125125d6314069a1cdbccd8b0b5eecc4b682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 019/106] fix: ConvertGeneral returned only the first element
 of a 1-D input

---
 src/pyRFtk/ConvertGeneral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ConvertGeneral.py b/src/pyRFtk/ConvertGeneral.py
index 7c22530..0af2db7 100644
--- a/src/pyRFtk/ConvertGeneral.py
+++ b/src/pyRFtk/ConvertGeneral.py
@@ -132,7 +132,7 @@ def ConvertGeneral(Z2, S1, Z1, type1='V', type2='V'):
     
     elif L == 1:
         _debug_ and logident('< L==1')
-        return [S2[0,0,0]]
+        return S2[:,0,0]
     
     elif L == 2:
         _debug_ and logident('< L==2')
-- 
2.43.0


From 7b7a1cba9c17688695d225a29f5171934d55dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 020/106] fix: S_from_Y could not be called and did not convert
 its result to an array

---
 src/pyRFtk/S_from_Y.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/S_from_Y.py b/src/pyRFtk/S_from_Y.py
index e93a873..66fd44e 100644
--- a/src/pyRFtk/S_from_Y.py
+++ b/src/pyRFtk/S_from_Y.py
@@ -1,7 +1,7 @@
 __updated__ = "2020-12-18 17:56:43"
 
 import numpy as np
-from . import _check_3D_shape_
+from ._check_3D_shape_ import _check_3D_shape_
 
 #===============================================================================
 #
@@ -17,7 +17,7 @@ def S_from_Y(Y, Zbase=50.):
     L, Y = _check_3D_shape_(Y)
     
     Y0 = np.eye(Y.shape[1])/Zbase
-    S = [ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y]
+    S = np.array([ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y])
     
     S = S[0,0,0] if L == 0 else S[:,0,0] if L == 1 else S[0,:,:] if L==2 else S 
     
-- 
2.43.0


From fc955b5fcef8c14ea4586e48eb054123d6859a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 021/106] fix: tsf2str failed for Z, Y or default formats, lost
 frequency digits and ignored Zbase

---
 src/pyRFtk/rfBase.py | 44 ++++++++++++++------------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 8104154..381e911 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -19,7 +19,8 @@ from .config import logident, logit, _newID
 from .whoami import whoami
 from .printMatrices import strM
 from .ConvertGeneral import ConvertGeneral
-from . import Z_from_S, Y_from_S
+from .Z_from_S import Z_from_S
+from .Y_from_S import Y_from_S
 from ._check_3D_shape_ import _check_3D_shape_
         
 #===============================================================================
@@ -319,7 +320,8 @@ class rfBase():
             raise TypeError(f'{whoami(__package__)}: ' # @UndefinedVariable
                             f'Unknown kwargs {", ".join([kw for kw in kwargs])}') 
                     
-        elmfmt, mtype, Zref, fscale, funit = 'MA', 'S', 50.0, 1.0, 'MHZ'
+        # (the frequency unit defaults to GHz in the touchstone standard)
+        elmfmt, mtype, Zref, fscale, funit = 'MA', 'S', None, 1e9, 'GHZ'
         fscales = {'HZ': 1, 'KHZ':1e3, 'MHZ':1e6, 'GHZ':1e9}
         elstrs = {
             'RI': lambda z: '  %11.8f %11.8f' % (z.real, z.imag),
@@ -346,7 +348,6 @@ class rfBase():
             
             elif tk in ['RI', 'MA', 'DB']:
                 elmfmt = tk
-                elstr = elstrs[elmfmt]
             
             elif tk in ['S', 'Y', 'Z']:
                 mtype = tk
@@ -355,7 +356,11 @@ class rfBase():
                 raise ValueError(f'{whoami(__package__)}: '  # @UndefinedVariable
                                  f'unknown touchstone format directive {tk}')
             last = tk
-            
+        
+        elstr = elstrs[elmfmt]
+        if Zref is None:
+            Zref = Zbase
+        tfmt = f'# {funit} {mtype} {elmfmt} R {Zref}'
 
         eoln = '\n'
         
@@ -386,38 +391,17 @@ class rfBase():
 
         Fs = np.array(fs) / fscale
         
-        freq_fmt = '%9.6f '
-        freq_fmt_len = 10
-        
-        if True:
-            # find the optimal frequency format that is able to represent the
-            # smallest frequency step as well as the maximun frequency
-            
-            if len(Fs) > 1:
-                for df in list(set(sorted(np.diff(Fs)))):
-                    if df > 0.:
-                        break
-            else:
-                df = Fs[0]
-            
-            m0, dm = 15, 3
-            m = m0
-            df0 = round(df,m)
-            while m >= 0 and df0 == round(df,m):
-                m -= dm
-            m += dm
-            freq_frac = '.%df' % m
-            n = len(('%'+freq_frac) % np.max(Fs))
-            freq_fmt = ('%%%d' % n) + freq_frac + ' '
-            freq_fmt_len = n + 1
+        # represent the frequencies with all their significant digits
+        Fstrs = ['%.15g' % fk for fk in Fs]
+        freq_fmt_len = max([len(Fstr) for Fstr in Fstrs], default=0) + 1
 
         CN = 4
-        for fk, Sk in zip(Fs, Ms):
+        for Fstr, Sk in zip(Fstrs, Ms):
             
             if len(self) == 2: # touchstone convention for 2-ports
                 Sk = np.transpose(Sk)
                 
-            s += freq_fmt % fk
+            s += f'{Fstr:>{freq_fmt_len-1}s} '
             for kr, Srow in enumerate(Sk):
                 for kc, Scol in enumerate(Srow):
                     s += elstr(Scol) + '  '
-- 
2.43.0


From 698f1bb53554838c6e71a78602ec06d146d4442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 022/106] fix: 2-port touchstone data was read and written
 transposed

---
 src/pyRFtk/ReadTSF.py  | 3 +++
 src/pyRFtk/WriteTSF.py | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 80b2731..fe97e3b 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -105,6 +105,9 @@ def ReadTSF(src, **kwargs):
     # reshape the collected coeffcients
     N = int(round(np.sqrt( len(Ss[0]) )))
     Ss = np.array(Ss).reshape((len(fs), N, N))
+    if N == 2:
+        # touchstone order for 2-ports: N11, N21, N12, N22
+        Ss = np.transpose(Ss, (0, 2, 1))
     
     # analyse the format string: 
     #  for unnormalized data (R missing) Zbase is set to None
diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index e03ba21..7b54034 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -28,9 +28,8 @@ def WriteTSF(object, path2tsf=None,
         comments   : multi-line string
         
         
-        note (I believe) the touchstone specification 1.1 transposes the 
-             the coefficients for .s2p (2-ports): this is not implemented here
-             as it is (apparently) not done in ReadTSF. 
+        note the touchstone specification 1.1 transposes the coefficients for
+             .s2p (2-ports): i.e. N11 N21 N12 N22
         
     """
 
@@ -100,6 +99,8 @@ def WriteTSF(object, path2tsf=None,
     for k,fk in enumerate(fs):
         s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
         d = object.getS(fk, Zbase=zref)
+        if nports == 2: # touchstone order for 2-ports
+            d = np.transpose(d)
         for kr in range(nports):
             for kc in range(nports):
                 dij = d[kr,kc]
-- 
2.43.0


From 951748e65f0112952dfcd4d3d4821fbdff8dce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 023/106] fix: WriteTSF wrote S-data for Z and Y formats and
 ignored the default and lower case settings

---
 src/pyRFtk/WriteTSF.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 7b54034..c5afd92 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -4,6 +4,9 @@ import numpy as np
 import re
 import time
 
+from .Z_from_S import Z_from_S
+from .Y_from_S import Y_from_S
+
 
 
 #===============================================================================
@@ -50,7 +53,7 @@ def WriteTSF(object, path2tsf=None,
         zref = float(
                 re.findall(
                     r'^.*?R\s*([-+]?(?:\d*[\.])?\d+(?:[eE][-+]?\d+)?).*?$',
-                    tsf_format
+                    tsf_format.upper()
                 )[0]
                )
     except:
@@ -58,7 +61,7 @@ def WriteTSF(object, path2tsf=None,
         
     fmt = re.findall('(RI|MA|DB)',tsf_format.upper())
     if len(fmt) == 0:
-        fmt = 'DB'  # default
+        fmt = 'MA'  # default (touchstone standard)
     elif len(fmt) == 1:
         fmt = fmt[0]
     else:
@@ -66,6 +69,8 @@ def WriteTSF(object, path2tsf=None,
             'WriteTSF: one one of DB, RI or MA allowed in format string'
             )
         
+    datatype = (re.findall(r'\b([SYZ])\b', tsf_format.upper()) + ['S'])[0]
+
     try:
         if len(object.ports) > 0 :
             s += '!PORTS ' + ', '.join(object.ports) + '\n\n'
@@ -99,6 +104,10 @@ def WriteTSF(object, path2tsf=None,
     for k,fk in enumerate(fs):
         s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
         d = object.getS(fk, Zbase=zref)
+        if datatype == 'Z':
+            d = Z_from_S(d, zref)
+        elif datatype == 'Y':
+            d = Y_from_S(d, zref)
         if nports == 2: # touchstone order for 2-ports
             d = np.transpose(d)
         for kr in range(nports):
-- 
2.43.0


From cfecf1d8e174c4c669a941bd863d88b0e723645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 024/106] fix: ReadTSF failed for missing option lines or
 reference impedances and for some special comments

---
 src/pyRFtk/ReadTSF.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index fe97e3b..191072f 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -49,7 +49,7 @@ def ReadTSF(src, **kwargs):
         tLogger.debug(ident(f'funit  = {Tfunit}'))
         tLogger.debug(ident(f'Tports = {Tports}'))
         
-        for k, cmt in Tcomments:
+        for k, cmt in enumerate(Tcomments):
             tLogger.debug(ident(f'Tcomments[{k:4d}] = "{cmt}"'))
     
     # process the source input 
@@ -111,6 +111,8 @@ def ReadTSF(src, **kwargs):
     
     # analyse the format string: 
     #  for unnormalized data (R missing) Zbase is set to None
+    # a missing format line is equivalent to the touchstone defaults
+    tformat = '#' if tformat is None else tformat.split('!',1)[0]
     items = tformat[1:].upper().split()[::-1] # note we reverse the order here
     datatype, datafmt, funit, Zbase = 'S', 'MA', 'GHZ', None 
     while len(items):
@@ -173,7 +175,7 @@ def ReadTSF(src, **kwargs):
         if len(tlist) > 0:
             shape = tuple([int(x) for x in tlist[0].split()[:2]])
             if len(shape) == 1:
-                shape.append(0)
+                shape += (0,)
             
         tlist = re.findall('!PART (.+)',aline)
         if len(tlist) > 0:
@@ -184,8 +186,8 @@ def ReadTSF(src, **kwargs):
         tlist = re.findall('!NUMBERING (.+)',aline)
         if len(tlist) > 0:
             numbering = tuple([x.lower() for x in tlist[0].split()[:2]])
-            if len(shape) < 2:
-                shape = shape[0] # so numbering becomes type str rather than tuple
+            if len(numbering) < 2:
+                numbering = numbering[0] # so numbering becomes type str rather than tuple
             
         
     # detect the source of the touchstone
@@ -381,13 +383,20 @@ def ReadTSF(src, **kwargs):
                 err = []
     
     else: # this should be the case when no Zcs or gammas are present
-        nZbase = len(Zlist)
+        if Zbase is None:
+            # the touchstone default for the reference impedance
+            Zbase = 50.
+        nZbase = len(Zbase) if hasattr(Zbase, '__iter__') else 1
                 
         
     # if the data type is Z or Y we need to convert to S
                 
     #FIXME: if TZbase was given then Zbase can be ignored
     Zbase = 50. if datatype in 'ZY' and Zbase is None else Zbase
+    if TZbase is None:
+        # report the reference impedance of the returned S-matrices
+        TZbase = Zbase if datatype in 'ZY' else 50.
+        
     if datatype == 'Z':
         # Ss = S_from_Z(Ss, Zbase if Zbase else TZbase)
         Ss = S_from_Z(Ss,  TZbase if TZbase else Zbase)
-- 
2.43.0


From e28c2c989bbc3d31e957cc9608949a1f892e0796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 025/106] fix: port and position lists and S-matrices were
 shared with the caller

---
 src/pyRFtk/rfBase.py | 8 ++++----
 src/pyRFtk/rfRLC.py  | 4 ++--
 src/pyRFtk/rfTRL.py  | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 381e911..58ed636 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -91,7 +91,7 @@ class rfBase():
             # self.kwused.append('Ss')
             
             if 'ports' in kwargs:
-                self.ports = kwargs.pop('ports')
+                self.ports = list(kwargs.pop('ports'))
                 if len(self.ports) != self.Ss.shape[1]:
                     raise ValueError(
                         'pyRFtk2.rfBase: inconsitent "ports" and "S" given'
@@ -101,7 +101,7 @@ class rfBase():
                 self.ports = [f'{p_}' for p_ in range(1,self.Ss.shape[1]+1)]
             
         elif 'ports' in kwargs:
-            self.ports = kwargs.pop('ports')
+            self.ports = list(kwargs.pop('ports'))
             self.Ss = 1j*np.zeros((0, len(self.ports),len(self.ports)))
             # self.kwused.append('ports')
             
@@ -119,7 +119,7 @@ class rfBase():
                 f'Ss [{self.Ss.shape[0]}].'
             )
         
-        self.xpos = kwargs.pop('xpos', [0.] * len(self))
+        self.xpos = list(kwargs.pop('xpos', [0.] * len(self)))
         # self.kwused.append('xpos')
         
         self.f, self.S = None, None
@@ -255,7 +255,7 @@ class rfBase():
             )
         
         _debug_ and logident(f'self.Ss={self.Ss}')
-        S = self.Ss[k[0],:,:]
+        S = self.Ss[k[0],:,:].copy()
         _debug_ and logident(f'S[k]={S}')
         self.f, self.S = f, S
         
diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index a0876ea..d69c105 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -69,7 +69,7 @@ class rfRLC():
         
         self.Id = kwargs.pop('Id', f'{type(self).__name__}_{_newID()}')
         self.Zbase = kwargs.pop('Zbase', 50.)
-        self.ports = kwargs.pop('ports',['s','p'])
+        self.ports = list(kwargs.pop('ports',['s','p']))
         self.Rs = kwargs.pop('Rs', 0.)
         self.Ls = kwargs.pop('Ls', 0.)
         self.Cs = kwargs.pop('Cs', +np.inf)
@@ -78,7 +78,7 @@ class rfRLC():
         self.Cp = kwargs.pop('Cp', 0.)
         self.f = None
         self.S = np.array([[0,1],[1,0]], dtype=complex)
-        self.xpos = kwargs.pop('xpos',[0., 0.])
+        self.xpos = list(kwargs.pop('xpos',[0., 0.]))
         self.attrs = ['Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp']
     
     #===========================================================================
diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 9548694..7001129 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -184,7 +184,7 @@ class rfTRL():
             self.kwargs = kwargs.copy()
             
         self.Id = kwargs.pop('Id','rfTRL_'+_newID())
-        self.ports = kwargs.pop('ports',['1','2'])
+        self.ports = list(kwargs.pop('ports',['1','2']))
         self.L = kwargs.pop('L', 0.)
         self.Zbase = kwargs.pop('Zbase', 50.)
         self.dx = kwargs.pop('dx', 72) # int -> 1/int-th of wavelength 
@@ -199,7 +199,7 @@ class rfTRL():
                         
         if isinstance(xpos, list):
             if len(xpos) == 2:
-                self.xpos = xpos
+                self.xpos = xpos[:]
             else:
                 raise ValueError(
                     'rfTRL.__init__: port count mismatch'
-- 
2.43.0


From 2141f3d051bb56ea976e8065ca42fff6a586cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 026/106] fix: standing waves of a transmission line were
 shared with the caller

---
 src/pyRFtk/rfTRL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 7001129..12566fb 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -586,7 +586,8 @@ class rfTRL():
             
             self.solved[f]['VISWs'][(Ahash, Zbase)] = (Vsw, Isw, E)
             
-        return self.solved[f]['xs'], self.solved[f]['VISWs'][(Ahash, Zbase)]
+        Vsw, Isw, _ = self.solved[f]['VISWs'][(Ahash, Zbase)]
+        return self.solved[f]['xs'].copy(), (Vsw.copy(), Isw.copy(), E)
     
     #===========================================================================
     #
-- 
2.43.0


From 89ec451c6c0bbf29e36be4659760cb994e83529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 027/106] fix: rfTRL unwrapped the phases of touchstone data
 along the ports

---
 src/pyRFtk/rfTRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 12566fb..e1c858c 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -222,8 +222,8 @@ class rfTRL():
             Ss = self.sNpdata['Ss']
             fmt = self.sNpdata['datafmt'].upper()
             
-            d = {'MA': (lambda z: [np.abs(z), np.unwrap(np.angle(z))]),
-                 'DB': (lambda z: [20*np.log10(z).real, np.unwrap(np.angle(z))]),
+            d = {'MA': (lambda z: [np.abs(z), np.unwrap(np.angle(z), axis=0)]),
+                 'DB': (lambda z: [20*np.log10(z).real, np.unwrap(np.angle(z), axis=0)]),
                  'RI': (lambda z: [z.real, z.imag])
                 }[fmt](Ss[:])
                         
-- 
2.43.0


From 94bcece15347ba4f6e5489350e6f9d1f0343bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 028/106] fix: rfTRL with varying parameters had too few points
 per wavelength

---
 src/pyRFtk/rfTRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index e1c858c..dc3ef48 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -437,7 +437,7 @@ class rfTRL():
 
                     xs = [0.]
                     while xs[-1] < self.L:
-                        xs.append(xs[-1] + wavlen(f,xs[-1])/self.dx)
+                        xs.append(xs[-1] + wavlen(w,xs[-1])/self.dx)
                     
                     # may have overshot the end point so we rescale everything
                     xs = np.array(xs) * self.L/xs[-1]
-- 
2.43.0


From fa9e9f0bf2c3fe724b9bdfc14d94e9e555ceb849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 029/106] fix: maxfun discarded the maximum found so far

---
 src/pyRFtk/maxfun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyRFtk/maxfun.py b/src/pyRFtk/maxfun.py
index cd57cc5..2412fa5 100644
--- a/src/pyRFtk/maxfun.py
+++ b/src/pyRFtk/maxfun.py
@@ -64,8 +64,7 @@ def maxfun(xs, ys):
                 xymax = xy
         else:
             debug and tLogger.debug(ident('Warning result outside window'))
-            xymax = 0, 0
-            for xm, ym in zip(xs[idx:idx+3],xs[idx:idx+3]):
+            for xm, ym in zip(xs[idx:idx+3],ys[idx:idx+3]):
                 if ym > xymax[1]:
                     xymax = xm, ym
             
-- 
2.43.0


From 1006c6ff590c7024f41bf57df50f9e0a4d2f1e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 030/106] fix: the outer conductor losses used the surface
 resistance of the inner conductor

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 056a559..fdb7a57 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -113,7 +113,7 @@ class TLresolver():
             return self.rTL(w,x) - self.rTLI(w,x)
         
         def _rTLO__qTLO_RsO_(w,x=0):                                         #21
-            return self.qTLO(w,x) * self.RsI(w,x)
+            return self.qTLO(w,x) * self.RsO(w,x)
         
         def _rTL__A_CTL_gTL_LTL_(w,x=0):
             wL = w * self.LTL(w,x)
-- 
2.43.0


From ef9d2b054550c150c3246dbc62757fbc87878e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 031/106] fix: constant functions could not be used as
 transmission line parameters

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index fdb7a57..384ed3d 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -453,7 +453,7 @@ class TLresolver():
                     return  (lambda w, x: p(x)), ddw, ddx
                 else:
                     # constant function
-                    return p(), ddw, ddx
+                    return (lambda w, x: p()), ddw, ddx
                   
         # we (should) have a scalar numerical or a 1/2-D array like
         p = np.array(p)
-- 
2.43.0


From 8edcb4cddf1a08be69038abb0f55f38beeddc75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 032/106] fix: wrong medium properties derived from the
 relative wave velocity

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 384ed3d..3bb049e 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -219,10 +219,10 @@ class TLresolver():
                 1 / np.sqrt(self.mur(w,x) * self.epsr(w,x))
             ),
             ('mur', ('vr', 'epsr'), 0., lambda w, x:                         #33
-                self.epsr(w, x) / self.vr(w, x)**2
+                1 / (self.epsr(w, x) * self.vr(w, x)**2)
             ),
             ('epsr', ('vr','mur'), 0., lambda w, x:                          #34
-                self.mur(w, x) / self.vr(w, x)**2
+                1 / (self.mur(w, x) * self.vr(w, x)**2)
             ),
             #-- ------------------------------------------------------------- --
             ('mur', ('etar', 'vr'), 0., lambda w, x:                         #35
-- 
2.43.0


From c774ed14aaf4c9857f688abea43212eba827b997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 033/106] fix: wrong conversion of the attenuation constant
 from dB/m

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 3bb049e..7ce7bda 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -240,7 +240,7 @@ class TLresolver():
             ),
             #-- ------------------------------------------------------------- --
             ('A', ('AdB',), 0., lambda w, x:                                 #39
-                1-10**(self.AdB(w,x)/20)
+                np.log(10)/20 * self.AdB(w,x)
             ),
             #-- ------------------------------------------------------------- --            
             # not approximations ...
-- 
2.43.0


From 848b1c7722e2fe5ffced3db266b5567f9449a7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 034/106] fix: inaccurate attenuation constant for low loss
 lines and wrong for very lossy lines

---
 src/pyRFtk/resolveTLparams.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 7ce7bda..e703a54 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -141,9 +141,7 @@ class TLresolver():
             wC = w * self.CTL(w,x)
             gwC = self.gTL(w,x) / wC 
             rwL = self.rTL(w,x) / wL
-            rwLgwC1 = (1 - rwL * gwC)
-            a2 = rwLgwC1 * (np.sqrt(1 +((rwL + gwC)/rwLgwC1)**2) - 1) / 2
-            return np.sqrt(a2 * wL * wC)
+            return np.real(np.sqrt((rwL + 1j) * (gwC + 1j) * wL * wC))
         
         def _gamma__gjwC_rjwL_(w,x=0):
             return (self.gjwC(w,x)*self.rjwL(w,x))**0.5
-- 
2.43.0


From 4fe19383df41f1b1d9cd3a7d7f6cd954e1524d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 035/106] fix: rfBase.maxV returned standing wave data without
 positions

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 58ed636..e42ffb4 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -468,7 +468,7 @@ class rfBase():
         Vmax = np.max(absV)
         where = self.ports[list(np.where(absV == Vmax)[0])[0]]
         VSWs = {
-            Id: dict( (p, Vp) for p, Vp in zip(self.ports, absV))
+            Id: dict( (p, ([x], [Vp])) for p, x, Vp in zip(self.ports, xpos, absV))
         }
         
         return Vmax, where, VSWs
-- 
2.43.0


From 15505e145fafcd1a870ac88db7ac54a4c5903a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 036/106] fix: rfObject interpolated stale or wrongly sorted
 data after modifications

---
 src/pyRFtk/rfObject.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 924e4ae..32687e0 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -346,6 +346,8 @@ class rfObject():
     def __setitem__(self, k, value):
         self.fs[k] = value[0]
         self.Ss[k,:,:] = value[1]
+        self.sorted = False
+        self.interpOK = False
     
     #===========================================================================
     #
@@ -424,6 +426,9 @@ class rfObject():
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
         self.Zcs = self.Zcs[:,idxs]
         self.Gms = self.Gms[:,idxs]
+        self.xpos = [self.xpos[k] for k in idxs]
+        self.interpOK = False
+        self.f, self.S = None, None
     
     #===========================================================================
     #
@@ -515,6 +520,7 @@ class rfObject():
         
         self.Ss = ConvertGeneral(newZbase, self.Ss, self.Zbase, 'V', 'V')
         self.Zbase = newZbase
+        self.interpOK = False
     
     #===========================================================================
     #
@@ -612,8 +618,9 @@ class rfObject():
         self.Ss = np.append(self.Ss, S, axis=0)
         
         # do not sort each time
-        self.sorted = self.sorted and (
-            (len(self.fs) == 1) or (self.fs[-2] < self.fs[-1])
+        # (only the added frequencies have to be checked)
+        self.sorted = self.sorted and bool(
+            np.all(np.diff(self.fs[-(len(f)+1):]) > 0)
         )
         
     #===========================================================================
@@ -659,6 +666,9 @@ class rfObject():
         self.Gms = np.array(r['Gm'])
         self.variables = r['variables']
         self.xpos = [0.] * len(self)
+        self.N = len(self)
+        self.sorted = bool(np.all(np.diff(self.fs) > 0))
+        self.interpOK = False
         
     #===========================================================================
     #
-- 
2.43.0


From 72421fb5553ef97f075dbe8a3ebb18d3038fad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 037/106] fix: the touchstone supplied to a circuit was not
 read

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index d6489e0..8a8b51e 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -108,7 +108,7 @@ class rfCircuit(rfBase):
         self.S = None # set in rfBase to None
         
         if sNp:
-            self.sNp = rfObject(touchtone=sNp)
+            self.sNp = rfObject(touchstone=sNp)
         
         _debug_ and logident('<')
     
-- 
2.43.0


From 48a7a5a728da77736faac4e810dcba7e37d54ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 038/106] fix: rfObject could not sort its frequencies or ports
 when there was no port impedance data

---
 src/pyRFtk/rfObject.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 32687e0..ae25401 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -424,8 +424,9 @@ class rfObject():
         
         self.ports = [self.ports[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
-        self.Zcs = self.Zcs[:,idxs]
-        self.Gms = self.Gms[:,idxs]
+        if len(self.Zcs) and len(self.Gms):
+            self.Zcs = self.Zcs[:,idxs]
+            self.Gms = self.Gms[:,idxs]
         self.xpos = [self.xpos[k] for k in idxs]
         self.interpOK = False
         self.f, self.S = None, None
@@ -442,8 +443,9 @@ class rfObject():
             self.fs = self.fs[idxs]
             self.Ss = self.Ss[idxs,:,:]
                         
-            self.Zcs = self.Zcs[idxs,:]
-            self.Gms = self.Gms[idxs,:]
+            if len(self.Zcs) and len(self.Gms):
+                self.Zcs = self.Zcs[idxs,:]
+                self.Gms = self.Gms[idxs,:]
             
             self.sorted = True
         
@@ -486,7 +488,7 @@ class rfObject():
                             
             self.interpOK = True
             
-        if not fs:
+        if fs is None:
             return
         
         M, A = self.interpM(fs), self.interpA(fs)
-- 
2.43.0


From b8bc445c1343de26fd46c39844d58d8a6155cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 039/106] fix: rfObject.setS left traces of a refused call and
 kept no positions for the ports it defined

---
 src/pyRFtk/rfObject.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index ae25401..0a9cc36 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -149,6 +149,7 @@ class rfObject():
         _ports = kwargs.get('ports', [])
         if isinstance(_ports, str):
             _ports = _ports.split()
+        _ports = list(_ports)
         _N = len(_ports)
         
         # If the object was created from an argument (e.g. an S-matrix),
@@ -176,7 +177,7 @@ class rfObject():
         self.interp = kwargs.get('interp',rcparams['interp'])
         self.interpkws = kwargs.get('interpkws',rcparams['interpkws'])
             
-        self.xpos = kwargs.get('xpos', [0.]*self.N)
+        self.xpos = list(kwargs.get('xpos', [0.]*self.N))
                 
         # initialize arrays and stuff
         if not hasattr(self,'fs'):
@@ -576,14 +577,10 @@ class rfObject():
         
         whoami = 'pyRFtk2.rfObject.setS'
         
-        self.interpOK = False
-        self.interpA = None
-        self.interpM = None
-        
         try:
             *_, S =  _check_3D_shape_(S)
         except ValueError:
-            raise ValueError(f'{whoami}: Unexpected shape: {S.shape}')
+            raise ValueError(f'{whoami}: Unexpected shape: {np.array(S).shape}')
         
         f =  np.array(f) if hasattr(f, '__iter__') else np.array([f])
                     
@@ -592,21 +589,23 @@ class rfObject():
                 f'{whoami}: number of frequencies ({len(f)}) does match number of '
                 f'S-matrices supplied ({len(S)}.')
         
-        if Portnames == None:
-            if not self.ports:
-                # no port names were defined yet: implicitely set to default names
-                self.ports = ['%02d' % k for k in range(S.shape[-1])]
+        if Portnames is None:
+            # if no port names were defined yet implicitely use default names
+            ports = self.ports or ['%02d' % k for k in range(S.shape[-1])]
+        elif self.ports:
+            raise ValueError(f'{whoami}: cannot redefine the portnames')
         else:
-            if self.ports:
-                raise ValueError(f'{whoami}: cannot redefine the portnames')
-            else:
-                self.ports = Portnames
+            ports = list(Portnames)
                 
-        # self.ports is defined 
-        if len(self.ports) != S.shape[-1]:
+        if len(ports) != S.shape[-1]:
             raise ValueError(
-                f'{whoami}: number of object\'s Portnames ({len(Portnames)}) '
-                f'does not match shape of S ({len(S.shape[-1])})')
+                f'{whoami}: number of object\'s Portnames ({len(ports)}) '
+                f'does not match shape of S ({S.shape[-1]})')
+        
+        if not self.ports:
+            self.ports = ports
+            self.N = len(ports)
+            self.xpos = [0.] * self.N
         
         if len(self.fs) == 0:
             # the object has no frequency entries yet ...
@@ -616,6 +615,10 @@ class rfObject():
             # we should never come here
             raise SystemError(f'{whoami}: Shape of S does not match ')
                 
+        self.interpOK = False
+        self.interpA = None
+        self.interpM = None
+        
         self.fs = np.append(self.fs,[f])
         self.Ss = np.append(self.Ss, S, axis=0)
         
-- 
2.43.0


From bc00da6d551ffada3de5e637836993423e77430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 040/106] fix: rfObject.maxV compared complex voltages instead
 of their magnitude

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 0a9cc36..2043f38 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -639,7 +639,7 @@ class rfObject():
         Zbase = self.Zbase if Zbase == None else Zbase
         Ea = [E[p] for p in self.ports]
         Eb = self.getS(f, Zbase=Zbase) @ Ea   # implicitly updates and solves the circuit
-        Vi = Ea + Eb
+        Vi = np.abs(Ea + Eb)
         maxVi = np.max(Vi)
         k = np.where(Vi == maxVi)[0][0]
         
-- 
2.43.0


From bc3d1c0f117827ec9e3ce8b08e2d4a534407bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 041/106] fix: rfObject.deembed failed for lengths and dicts,
 emptied the caller's dict and ignored the frequency unit

---
 src/pyRFtk/rfObject.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 2043f38..253f722 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -714,6 +714,20 @@ class rfObject():
         
         """
           
+        # check all before modifying any
+        ports = dict(ports)
+        missing = [port for port in ports if port not in self.ports]
+        if missing:
+            raise ValueError(
+                f'pyRFtk2.rfObject.deembed: port(s) {",".join(missing)}'
+                ' not found.')
+        
+        for port, v in ports.items():
+            if not ((isinstance(v, tuple) and len(v) == 2) or
+                    isinstance(v, (int, float, dict))):
+                raise ValueError(
+                    f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
+    
         self.interpOK = False      
         
         for kp, port in enumerate(self.ports):
@@ -722,19 +736,15 @@ class rfObject():
                 if isinstance(v,tuple) and len(v) == 2:
                     L, Z = v
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
-                elif isinstance(v, [int, float]):
+                elif isinstance(v, (int, float)):
                     L, Z = v, self.Zbase
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
                 elif isinstance(v, dict):
-                    v.pop('Zbase') # we need it in self.Zbase
-                    TRL = rfTRL(**v, Zbase=self.Zbase)
-                else:
-                    raise ValueError(
-                        f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
-    
+                    # we need it in self.Zbase
+                    TRL = rfTRL(**dict(v, Zbase=self.Zbase))
                 
                 for kS, (f, Sobj) in enumerate(zip(self.fs, self.Ss)):
-                    Strl = TRL.getS(f)
+                    Strl = TRL.getS(f * self.fscale)
                                         
                     qn = 1 - Strl[0,0] * Sobj[kp,kp]
                     if np.abs(qn) != 0:
@@ -767,9 +777,4 @@ class rfObject():
                 
                     self.Ss[kS,:,:] = Sobj[:,:]
 
-        if ports:
-            raise ValueError(
-                f'pyRFtk2.rfObject.deembed: port(s) {",".join([p for p in ports])}'
-                ' not found.')
-
 
-- 
2.43.0


From ac1488b7665189e16d136b3f4f47715afc2fd47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 042/106] fix: str_dict repeated the results of earlier calls

---
 src/pyRFtk/str_dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/str_dict.py b/src/pyRFtk/str_dict.py
index 4186b6c..f8e389e 100644
--- a/src/pyRFtk/str_dict.py
+++ b/src/pyRFtk/str_dict.py
@@ -6,6 +6,8 @@ def str_dict(adict):
         str_dict.N
     except AttributeError:
         str_dict.N = 0
+    
+    if str_dict.N == 0: # not a recursive call
         str_dict.s = ''
     
     if isinstance(adict, dict):
-- 
2.43.0


From 9af65b72ca6ff0f8ccc7a996860167a75795f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 043/106] fix: rfGTL used the text of not yet resolved
 variables

---
 src/pyRFtk/rfGTL.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 36e5c34..8d9eacf 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -95,7 +95,10 @@ class rfGTL(rfCircuit):
             for var, val in self.vars.items():
                 if isinstance(val, str):
                     try:
-                        found[var] = eval(val, globals(), self.vars)
+                        # (variables which are not yet resolved are not used)
+                        found[var] = eval(val, globals(), dict(
+                            [(_var, _val) for _var, _val in self.vars.items()
+                             if not isinstance(_val, str)]))
                     except (NameError, SyntaxError, TypeError):
                         pass # probably could not resolve yet
             if found:
-- 
2.43.0


From 44ac9588ae9b772a01979d423fd6d166d8092a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 044/106] fix: rfGTL did not recognize arc blocks

---
 src/pyRFtk/rfGTL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 8d9eacf..9a7b5c0 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -189,10 +189,10 @@ class rfGTL(rfCircuit):
                 # rfRLC object                       
                 # obsolete -- xposlist[blk] = [xpos, xpos]
                 RFobj = rfRLC(Zbase=self.Zbase,**tkwargs)
-            elif len(kwargs) == 1 and 'Larc' in kwargs:
+            elif 'Larc' in tkwargs:
                 # rfArcObject
                 # obsolete -- xposlist[blk] = [xpos, xpos]
-                RFobj = rfArcObj(kwargs['Larc'])
+                RFobj = rfArcObj(Zbase=self.Zbase,**tkwargs)
             else:
                 # rfTRL object
                 # obsolete -- xposlist[blk] = [xpos, xpos + tkwargs['L']]
-- 
2.43.0


From 4e8f2abd570731adba629c3c24a28a034ffeb457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 045/106] fix: rfGTL did not substitute variables in
 terminations

---
 src/pyRFtk/rfGTL.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 9a7b5c0..7355b34 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -128,7 +128,10 @@ class rfGTL(rfCircuit):
                 #------------------------------------ check for terminated ports
                 if isinstance(p, dict):
                     # terminate kwargs
-                    terminated = (p, '[**]')
+                    terminated = dict(
+                        [(kw, eval(val, globals(), self.vars)
+                              if isinstance(val, str) else val)
+                         for kw, val in p.items()]), '[**]'
                     blkPortnames[kp] = '[**]'
                     continue
                 elif isinstance(p, str):
-- 
2.43.0


From b222bff2be256794211b36565f2d2a0b1124b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 046/106] fix: rfGTL could not create arc objects

---
 src/pyRFtk/rfGTL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 7355b34..3ca0710 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -13,7 +13,8 @@ import warnings
 from copy import deepcopy
 
 
-from . import rfCircuit, rfTRL, rfRLC, rfObject, rfArcObj
+from . import rfCircuit, rfTRL, rfRLC, rfObject
+from .rfArcObj import rfArcObj
 from .whoami import whoami 
 from .config import logit, tLogger, ident, _newID, logident
 
-- 
2.43.0


From 450b4112c6644eaa4906e5f419a4bd1bf6b16b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 047/106] fix: rfGTL failed for a position given for a
 terminated port

---
 src/pyRFtk/rfGTL.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 3ca0710..2fd6f37 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -183,7 +183,8 @@ class rfGTL(rfCircuit):
             
             if 'xpos' in tkwargs:
                 xpos = tkwargs.pop('xpos')
-                positions[f'{blkPortnames[0]}'] = xpos
+                if blkPortnames[0] in portlist:
+                    positions[f'{blkPortnames[0]}'] = xpos
             else:
                 xpos = -10
                 
@@ -207,6 +208,12 @@ class rfGTL(rfCircuit):
                     pprint(tkwargs)
                     raise
                 
+            if xpos != -10 and blkPortnames[0] not in portlist:
+                # the given position is the one of a terminated port
+                for p, xp in zip(blkPortnames[1:], RFobj.xpos[1:]):
+                    if p in portlist:
+                        positions[p] = xpos + xp
+                
             self.addblock(blk, RFobj, ports=blkPortnames, relpos=xpos)
             if terminated:
                 self.terminate(f'{blk}.{terminated[1]}', **terminated[0])
-- 
2.43.0


From 9b7ddf9e6313da3554eab4733b34bf2a8d1cac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 048/106] fix: the supplied medium conductance of a
 transmission line was ignored

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index e703a54..a113e71 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -301,7 +301,7 @@ class TLresolver():
                                      'ddw': False, 'ddx': False}
                 self.order.append('rTL')
 
-            if not any(avail('sigma', 'tand', 'Am', 'AmdB')):
+            if not any(avail('gTL', 'sigma', 'tand', 'Am', 'AmdB')):
                 # have no attenuation and nothing to compute medium losses
                 # if any losses they must come from the conductors -> gTL = 0
                 setattr(self, 'gTL', lambda w, x: 0.)
@@ -312,7 +312,7 @@ class TLresolver():
         else:
             if not any(avail('Ac', 'AcdB', 'Rs','RsI','RsO',
                              'rTL','rTLO','rTLI', 'rho','rhoI','rhoO',
-                             'sigma', 'tand', 'Am', 'AmdB')):
+                             'gTL', 'sigma', 'tand', 'Am', 'AmdB')):
                 # we have an attenuation but nothing to compute either conductor
                 # or medium losses -> we assume there are no medium losses
                 setattr(self, 'gTL', lambda w, x: 0.)
-- 
2.43.0


From 57e96a340e43cb3ab3466bed30a4e7d970eb4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 049/106] fix: strVSW lost the sign of positions

---
 src/pyRFtk/plotVSWs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index 2f20e8a..8c7aa43 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -231,16 +231,16 @@ def strVSW(VSW, indent=0):
                 if len(val[0]) == len(val[1]):
                     for _, (x, y) in enumerate(zip(val[0], val[1]),1):
                         try:
-                            s += f'{" "*(indent+2)}{_:5d}:{np.abs(x):10.3f},{np.abs(y):10.3f}\n'
+                            s += f'{" "*(indent+2)}{_:5d}:{x:10.3f},{np.abs(y):10.3f}\n'
                         except:
                             if x is None:
                                 s += f'{" "*(indent+2)}{_:5d}:{" < None > ":10s},{np.abs(y):10.3f}\n'
                             else:
                                 s += f'! #={_}, x={x}, y={y}\n'
                 else:
-                    s += f'! unequal array/list lengths x:{len(val[0])} <> y:{len(val[0])}\n'
+                    s += f'! unequal array/list lengths x:{len(val[0])} <> y:{len(val[1])}\n'
             elif not (hasattr(val[0],'__iter__') or hasattr(val[1],'__iter__')):
-                s += f'{" "*(indent+2)}{"node":5s}:{np.abs(val[0]):10.3f},{np.abs(val[1]):10.3f}\n'
+                s += f'{" "*(indent+2)}{"node":5s}:{val[0]:10.3f},{np.abs(val[1]):10.3f}\n'
             else:
                 s += f'! tuple error ...\n'
         else:
-- 
2.43.0


From 64933b5aa08248fea80ba08461e960df47833b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 050/106] fix: scaleVSW failed for single nodes

---
 src/pyRFtk/plotVSWs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index 8c7aa43..b29874e 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -212,7 +212,7 @@ def scaleVSW(VSW, scale):
                 for k in range(len(val[1])):
                     val[1][k] *= scale
             else:
-                VSW[Id][1] *= scale
+                VSW[Id] = type(val)((val[0], val[1] * scale))
         else:
             raise ValueError('pyRFtk.CommonLib.plotVSWs.scaleVSW: internal error')
         
-- 
2.43.0


From 60f36f7c8e08c7ba34fe1bcec9c62936cda9501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 051/106] fix: rfRLC.maxV did not report the positions of its
 ports

---
 src/pyRFtk/rfRLC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index d69c105..745d088 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -271,7 +271,7 @@ class rfRLC():
         maxVi = np.max(Vi)
         k = np.where(Vi == maxVi)[0][0]
         
-        return maxVi, ID+'.'+self.ports[k], (np.zeros(Vi.shape),Vi)
+        return maxVi, ID+'.'+self.ports[k], (np.array(self.xpos, dtype=float), Vi)
 
         return 
 
-- 
2.43.0


From 3576eb22ce49de48d02e9aea5645dd82d9f98087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 052/106] fix: compareSs did not show more than 6 sets of
 S-matrices

---
 src/pyRFtk/compareSs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/compareSs.py b/src/pyRFtk/compareSs.py
index 998e148..5a35878 100644
--- a/src/pyRFtk/compareSs.py
+++ b/src/pyRFtk/compareSs.py
@@ -28,6 +28,8 @@ def compareSs(fs, Ss, cs=[], lbls=[], **figkwargs):
     if not len(cs):
         cs = ['r','b--','g--','m','c','k']
     
+    cs = [cs[k % len(cs)] for k in range(len(Ss))]
+    
     if not len(lbls):
         lbls = [f'{k+1}' for k in range(len(Ss))]
     
-- 
2.43.0


From 5d2837edb1270e44db6f13bec13146a22aaa2781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 053/106] fix: positions of a zero-length line section with
 varying parameters (C06/C17)

---
 src/pyRFtk/rfTRL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index dc3ef48..1c04a52 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -440,7 +440,8 @@ class rfTRL():
                         xs.append(xs[-1] + wavlen(w,xs[-1])/self.dx)
                     
                     # may have overshot the end point so we rescale everything
-                    xs = np.array(xs) * self.L/xs[-1]
+                    xs = (np.array(xs) * self.L/xs[-1] if self.L > 0 
+                          else np.zeros(2))
                     
             else: # step explicitly given
                 if self.dx < 0:
-- 
2.43.0


From 026a6a015fead136997e736c9588083bc36468a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 054/106] fix: line constant with coaxial geometry did not
 determine the medium (C07)

---
 src/pyRFtk/resolveTLparams.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index a113e71..cebee6d 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -250,6 +250,14 @@ class TLresolver():
                 w * self.epsr(w,x) * e0 * self.tand(w,x)
             ),
             #-- ------------------------------------------------------------- --
+            # coaxial geometry and one of the line constants -> medium
+            ('epsr', ('CTL', 'ID', 'OD'), 0., lambda w, x:
+                self.CTL(w,x) * np.log(self.OD(w,x)/self.ID(w,x)) / (2*np.pi*e0)
+            ),
+            ('mur', ('LTL', 'ID', 'OD'), 0., lambda w, x:
+                2*np.pi * self.LTL(w,x) / (mu0 * np.log(self.OD(w,x)/self.ID(w,x)))
+            ),
+            #-- ------------------------------------------------------------- --
             # resonable assumptions as we found nothing until now ...
             ('mur', (), 0., _ct_1_),                                         #53
             ('epsr', (), 0., _ct_1_),                                        #54
-- 
2.43.0


From 783147c1233564141c9b5cbcc7872f6df7a5c1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 055/106] fix: coupling of 0 (kc) or 0 dB (kcdB) was taken as
 not given (C09)

---
 src/pyRFtk/rfCoupler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCoupler.py b/src/pyRFtk/rfCoupler.py
index 9825e5f..f13eb4b 100644
--- a/src/pyRFtk/rfCoupler.py
+++ b/src/pyRFtk/rfCoupler.py
@@ -85,15 +85,15 @@ class rfCoupler(rfBase):
                 f'{whoami(__package__)}: sNp not yet implemented' # @UndefinedVariable
             )
 
-        if self.kc:
-            if self.kcdB:
+        if self.kc is not None:
+            if self.kcdB is not None:
                 raise ValueError(
                     f'{whoami(__package__)}: only one of kc or kcdB can be given' # @UndefinedVariable
                 )
             else:
                 self.kcdB = 20 * np.log10(self.kc)
         else:
-            if self.kcdB:
+            if self.kcdB is not None:
                 self.kc = 10**(-np.abs(self.kcdB)/20)
             else:
                 self.kc = np.sqrt(0.5)
-- 
2.43.0


From 609a68a9899f011fc206a63aa5c67f70bb3014d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 056/106] fix: rfObject.getS: stored frequencies of an object
 in another unit were missed by rounding (C10)

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 253f722..4bc150d 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -538,7 +538,7 @@ class rfObject():
             1
         ))
         
-        fs = np.array(fs) * FUNITS[kw.pop('funit', self.funit).upper()]/self.fscale
+        fs = np.array(fs) * (FUNITS[kw.pop('funit', self.funit).upper()]/self.fscale)
         Zbase = kw.pop('Zbase',self.Zbase)
         
         def get1S(fk):
-- 
2.43.0


From 64508348885c05d7fabaa369d87a6f3859c00253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 057/106] fix: ReadTSF: one-port files with port impedance
 comments and a reference resistance crashed (C12)

---
 src/pyRFtk/ReadTSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 191072f..43bd720 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -338,8 +338,8 @@ def ReadTSF(src, **kwargs):
                      ' Complex Port Impedances'
                 )
                 
-            Gms = [np.diag(Gmk) for Gmk in Gms]
-            Zcs = [np.diag(Zck) for Zck in Zcs]
+            Gms = np.array([np.diag(Gmk) for Gmk in Gms])
+            Zcs = np.array([np.diag(Zck) for Zck in Zcs])
         
     # get the frequencies and scale for the units
     fs = np.array(fs, dtype=float) * fscale(funit, Tfunit)
-- 
2.43.0


From 6afc461d9c87db4c6a09fbd4f1b76ce5cbfd3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 058/106] fix: full text of a circuit failed for port or block
 names with spaces

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 8a8b51e..82d060a 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -146,7 +146,7 @@ class rfCircuit(rfBase):
         l2 = max(len(wave) for wave in self.waves)
         for k, (Mr, eqn) in enumerate(zip(self.M, self.eqns)):
             s += f'| {k:3d} {self.waves[k]:<{l2}s} [{k:3d}] {eqn:<{l1}s} '
-            typ, port = tuple(eqn.split())
+            typ, port = tuple(eqn.split(None, 1))
             name = port.split('.')[0]
             # print(typ,port,name)
             if typ[0] == 'S':
-- 
2.43.0


From 3d9957155c7be790d73fee2408440215a99863cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 059/106] fix: position of a block port with dots in its name
 was sought inside the block

---
 src/pyRFtk/rfCircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 82d060a..7da6725 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -759,6 +759,8 @@ class rfCircuit(rfBase):
                 block = obj.blocks[blk]
                 relpos += block['xpos']
                 obj = block['object']
+                if node in block['ports']:
+                    break # a block's port name can have dots too
             except AttributeError: # because obj is not a circuit (= no .blocks)
                 node = onode
                 break
-- 
2.43.0


From f94df4c742d08aac113e8c6b1768f5cb769d1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 060/106] fix: copies of objects defined by files failed or
 changed when the file was gone or modified

---
 src/pyRFtk/rfBase.py | 2 +-
 src/pyRFtk/rfGTL.py  | 2 +-
 src/pyRFtk/rfRLC.py  | 2 +-
 src/pyRFtk/rfTRL.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index e42ffb4..320da00 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -195,7 +195,7 @@ class rfBase():
         return self.__deepcopy__(self)
     
     def __deepcopy__(self, memo=None):                       # @UnusedVariable
-        other = type(self)(*self.args, **self.kwargs)
+        other = type(self).__new__(type(self)) # a copy does not depend on files
         for attr, val in self.__dict__.items():
             try:
                 # print(f'copying {attr}')
diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 2fd6f37..04d4a18 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -371,7 +371,7 @@ class rfGTL(rfCircuit):
         _debug_ and logident('>', printargs=True)
         
         # other = type(self)(self.path2model, self.objkey, self.variables, **self.kwargs) # because rfGTL object has a path2model
-        other = type(self)(*self.args, **self.kwargs) # because rfGTL object has a path2model
+        other = type(self).__new__(type(self)) # a copy does not depend on files
         for attr, val in self.__dict__.items():
             try:
                 _debug_ and logident(f'copy {attr}')
diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 745d088..e3767ee 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -105,7 +105,7 @@ class rfRLC():
         
         debug = logit['DEBUG']
         debug and logident('>')
-        other = type(self)(*self.args, **self.kwargs)
+        other = type(self).__new__(type(self)) # a copy does not depend on files
         for attr, val in self.__dict__.items():
             try:
                 other.__dict__[attr] = copy.deepcopy(val)
diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 1c04a52..0ffbd26 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -280,7 +280,7 @@ class rfTRL():
         debug = logit['DEBUG']
         debug and tLogger.debug(ident(f'> circuit.__deepcopy__ {self.Id}', 1))
         
-        other = type(self)(*self.args, **self.kwargs)
+        other = type(self).__new__(type(self)) # a copy does not depend on files
         for attr, val in self.__dict__.items():
             try: 
                 debug and tLogger.debug(ident(f'copy {attr}'))
-- 
2.43.0


From d5ace87018c57b3d9b036271ef9d6549940af9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 061/106] fix: indexing and iterating an rfObject returned its
 own storage

---
 src/pyRFtk/rfObject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 4bc150d..ddcba6c 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -331,14 +331,14 @@ class rfObject():
     #
     def __iter__(self):
         for k in range(len(self.fs)):
-            yield self.fs[k], self.Ss[k,:,:]
+            yield self.fs[k], self.Ss[k,:,:].copy()
     
     #===========================================================================
     #
     #  _ _ g e t i t e m _ _
     #
     def __getitem__(self, k):
-        return self.fs[k], self.Ss[k,:,:]
+        return self.fs[k], self.Ss[k,:,:].copy()
     
     #===========================================================================
     #
-- 
2.43.0


From e8ea9774df6681a6f0de72fc1c64dc1bddff7662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 062/106] fix: set ignored all but one of the settings given
 for the same object

---
 src/pyRFtk/rfCircuit.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 7da6725..e1f3183 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1219,7 +1219,9 @@ class rfCircuit(rfBase):
         
         modified = False
 
-        # unpack args and add them to kwargs
+        # unpack args and collect them ahead of the kwargs (an object can be
+        # addressed more than once)
+        settings = []
         if args:
             
             debug and logident('if args -> True')
@@ -1231,14 +1233,14 @@ class rfCircuit(rfBase):
                 debug and logident(f'  ak = {ak}')
                 
                 if isinstance(ak, tuple) and len(ak) == 2:
-                    kwargs = dict([ak], **kwargs)
+                    settings.append(ak)
                 
                 elif isinstance(ak, dict):
-                    kwargs = dict(ak, **kwargs)
+                    settings += ak.items()
                     
                 elif isinstance(ak,str) and len(largs)>0:
                     vk = largs.pop(0)
-                    kwargs = dict([(ak,vk)], **kwargs)
+                    settings.append((ak,vk))
                 
                 else:
                     raise ValueError(
@@ -1248,19 +1250,18 @@ class rfCircuit(rfBase):
                     )
                     
             
-            debug and logident(f'-> kwargs = {kwargs}')
+        settings += kwargs.items()
+        debug and logident(f'-> settings = {settings}')
             
-        # progess the kwargs
-        debug and logident('starting kwargs loop ...')
+        # progess the settings
+        debug and logident('starting settings loop ...')
 
         # remember the present values to undo a partially applied request
         saved = self._setvalues()
         
-        processed = []
-        for kw, val in kwargs.items():
+        for kw, val in settings:
             
             debug and logident(f'  processing kw={kw},val={val}')  
-            processed.append(kw)
             
             if not isinstance(val, dict):
                 # need to check if type val makes sense: expect int, float or complex
@@ -1280,9 +1281,9 @@ class rfCircuit(rfBase):
                 val = {attr: val}
                  
             # kw now points to an object
-            block, rest = (kw.split('.',1) + [''])[:2]
             # recursively call the block's set method
             try:
+                block, rest = (kw.split('.',1) + [''])[:2]
                 obj = self.blocks[block]['object']
                 if rest:
                     # block is a rfCircuit itself
@@ -1295,7 +1296,7 @@ class rfCircuit(rfBase):
             except AttributeError:
                 self._restorevalues(saved)
                 raise ValueError(
-                    f'{whoami(__package__)}: {block} has no \'set\' attribute'
+                    f'{whoami(__package__)}: {kw} has no \'set\' attribute'
                 )
             
             except:
@@ -1311,13 +1312,6 @@ class rfCircuit(rfBase):
             self.f = None
             self.S = None
             
-        # removes the processed kwargs 
-        for kw in processed:
-            kwargs.pop(kw)
-               
-        if kwargs:
-            print(f'{whoami(__package__)}: {self.Id} : unused kwargs:\n{kwargs}')
-        
         debug and logident(f'<')
         
         return modified
-- 
2.43.0


From 4b5dd8432050ee91ce247d123351c3fa044fa8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 063/106] fix: params supplied for an rfArcObj were ignored

---
 src/pyRFtk/rfBase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 320da00..1795673 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -274,6 +274,7 @@ class rfBase():
         _debug_ and logident(f'fs={fs}')
         
         if hasattr(fs,'__iter__'):
+            self.set(**kwargs.pop('params', {}))
             Ss = [self.get1S(fk) for fk in fs]
             
             Zbase = kwargs.pop('Zbase', self.Zbase)
-- 
2.43.0


From b8995937af3e17ffe173728b77866a7bc39f538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 064/106] fix: a log level without a name made operations fail

---
 src/pyRFtk/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/config.py b/src/pyRFtk/config.py
index d9cf782..dcdd4e4 100644
--- a/src/pyRFtk/config.py
+++ b/src/pyRFtk/config.py
@@ -130,7 +130,7 @@ def logident(message, printargs=False, stacklev=2):
         'WARNING'  : tLogger.warning,
         'ERROR'    : tLogger.error,
         'CRITICAL' : tLogger.critical
-    }[logging._levelToName[tLogger.getEffectiveLevel()]]
+    }.get(logging.getLevelName(tLogger.getEffectiveLevel()), notset)
         
     curframe = inspect.currentframe()
     calframe = inspect.getouterframes(curframe, stacklev)
-- 
2.43.0


From d0896bfea39142d1b6debbc8c5bc3f5402ec1860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 065/106] fix: findObj failed for locations beyond an element

---
 src/pyRFtk/rfCircuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index e1f3183..8e272f1 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -281,10 +281,11 @@ class rfCircuit(rfBase):
                 blk, location = (location.split('.', 1) + [''])[:2] 
                 debug and logident(f'loc: {blk}, arc: {location}')
                 obj = obj.blocks[blk]['object']
-        except KeyError:
+        except (KeyError, AttributeError):
+            # unknown block or obj is not a circuit
             if debug:
-                for s in obj.asstr(1).split('\n'):
-                    logident(s)
+                for s in (obj.asstr(1) if hasattr(obj, 'asstr') else str(obj)).split('\n'):
+                    s and logident(s)
                 if hasattr(obj,'blocks'):
                     for itm in obj.blocks:
                         logident(itm)
-- 
2.43.0


From 92d0fcbc8884ce408e981566ec5ecc49e3511149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 066/106] fix: resolve_xpos failed or lost the positions of
 joined ports

---
 src/pyRFtk/rfCircuit.py | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 8e272f1..1c7e1d2 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1702,30 +1702,7 @@ class rfCircuit(rfBase):
     def resolve_xpos(self):
         """tries to build and xpos based on the underlying blocks' information
         """
-        rXpos = [None] * len(self.ports)
-        
-        for _kp, _p in enumerate(self.ports):
-            _x = rXpos[_kp]
-            if _x is not None:
-                continue
-            blkID, blkport = (_p.split('.',1) + [None])[:2]
-            if blkport is not None:
-                obj = self.blocks[blkID]['object']
-                try:
-                    rXpos[_kp] = self.blocks[blkID]['xpos'][obj.ports.index(blkport)]
-                except ValueError:
-                    raise ValueError(
-                        f'rfCircuit.resolve_xpos: port {blkport} is not in block {blkID}'
-                    )
-                except Exception as e:
-                    raise RuntimeError(
-                        f'rfCircuit.resolve_xpos: while checking for {_p} {e} occured'
-                    )
-                
-            if rXpos[_kp] is None:
-                rXpos[_kp] = 0.
-            
-        self.xpos = rXpos
+        self.xpos = [self.getpos(_p) for _p in self.ports]
         
     #===========================================================================
     #
-- 
2.43.0


From aabc96fa6038240193475c04ef11f7b4c6961265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 067/106] fix: a refused assignment to an entry of an rfObject
 modified its frequency

---
 src/pyRFtk/rfObject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index ddcba6c..d596537 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -345,8 +345,10 @@ class rfObject():
     #  _ _ s e t i t e m _ _
     #
     def __setitem__(self, k, value):
-        self.fs[k] = value[0]
-        self.Ss[k,:,:] = value[1]
+        f, S = value[0], np.empty_like(self.Ss[k,:,:])
+        S[...] = value[1] # a wrong size is refused before anything is modified
+        self.fs[k] = f
+        self.Ss[k,:,:] = S
         self.sorted = False
         self.interpOK = False
     
-- 
2.43.0


From 9c2e26fbf7f0450276f4156895465022c0b0cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 068/106] fix: deembed accepted the same new port twice

---
 src/pyRFtk/rfCircuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 1c7e1d2..e487df6 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -443,9 +443,9 @@ class rfCircuit(rfBase):
         
         # refuse invalid requests before anything is modified
         
-        avail = list(self.ports)
+        avail, newports = list(self.ports), []
         for dp, ip in IntPorts:
-            if ip in avail or f'->{ip}' in self.waves:
+            if ip in avail or f'->{ip}' in self.waves or ip in newports:
                 raise ValueError(
                     f'{whoami(__package__)}: (internal) port {ip} already exists '
                 )
@@ -454,6 +454,7 @@ class rfCircuit(rfBase):
                     f'{whoami(__package__)}: (external) port {dp} does not exist'
                 )
             avail.remove(dp)
+            newports.append(ip)
         
         for p in [p for t in ExtPorts for p in t]:
             if p not in avail:
-- 
2.43.0


From 2a8a3275b3f0dc8802e73cdfceb29144a0b31c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 069/106] fix: a refused termination (invalid value) made the
 port unavailable

---
 src/pyRFtk/rfCircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index e487df6..36b35bb 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -941,6 +941,8 @@ class rfCircuit(rfBase):
             rho = (1 - Y * self.Zbase) / (1 + Y * self.Zbase)
         else:
             rho = kwargs.pop('RC', 0.)
+        
+        rho = complex(rho) # refuse invalid values before anything is modified
             
         if kwargs:
             raise ValueError(
-- 
2.43.0


From 1da9f697439a85ca7d5d3b2861c08de8fc6451d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 070/106] fix: a refused addblock (invalid position) left part
 of the block in the circuit

---
 src/pyRFtk/rfCircuit.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 36b35bb..b27dd5d 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -675,6 +675,9 @@ class rfCircuit(rfBase):
         else:
             relpos = kwargs.pop('relpos', 0.)
             
+        # refuse an invalid position before anything is modified
+        xpos = [relpos + x for x in getattr(RFobj, 'xpos', [0.] * N)][:N]
+        
         # if hasattr(xpos,'__iter__'):
         #     if len(xpos) != N:
         #         raise ValueError(
@@ -730,12 +733,7 @@ class rfCircuit(rfBase):
         
         # update the self.xpos
         # self.xpos = []
-        if hasattr(RFobj,'xpos'):
-            for p, x in zip(oports, RFobj.xpos):
-                self.xpos.append(relpos + x)
-        else:
-            for p in oports:
-                self.xpos.append(relpos)
+        self.xpos += xpos
                 
         _debug_ and tLogger.debug(ident(
             f'< [circuit.addblock] (inserted a new block)', -1
-- 
2.43.0


From aa47647d6f91a7a7a6edb277bbdbea435bd89343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 071/106] fix: a refused rfObject.deembed left part of the
 ports deembedded

---
 src/pyRFtk/rfObject.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index d596537..a09adb5 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -730,7 +730,7 @@ class rfObject():
                 raise ValueError(
                     f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
     
-        self.interpOK = False      
+        Ss = self.Ss.copy() # nothing is modified until all is done
         
         for kp, port in enumerate(self.ports):
             if port in ports:
@@ -745,7 +745,7 @@ class rfObject():
                     # we need it in self.Zbase
                     TRL = rfTRL(**dict(v, Zbase=self.Zbase))
                 
-                for kS, (f, Sobj) in enumerate(zip(self.fs, self.Ss)):
+                for kS, (f, Sobj) in enumerate(zip(self.fs, Ss)):
                     Strl = TRL.getS(f * self.fscale)
                                         
                     qn = 1 - Strl[0,0] * Sobj[kp,kp]
@@ -777,6 +777,9 @@ class rfObject():
                         raise RuntimeError(
                             'pyRFtk2.rfObject.deembed: this should not happen !')
                 
-                    self.Ss[kS,:,:] = Sobj[:,:]
+                    Ss[kS,:,:] = Sobj[:,:]
+        
+        self.Ss = Ss
+        self.interpOK = False
 
 
-- 
2.43.0


From e18ad4359f53d682413ed706a69787f04f3b939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 072/106] fix: refused params of getS were applied in part

---
 src/pyRFtk/rfCircuit.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index b27dd5d..d49e4be 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1360,6 +1360,18 @@ class rfCircuit(rfBase):
                           and self.invM is not None and self.flags == flags
                           and self.ports == list(self.Portnames))
                     
+                # (refused params are not applied in part)
+                saved = self._setvalues() if params else []
+                try:
+                    for blkID, blk in self.blocks.items():
+                        try:
+                            blk['object'].set(**params.get(blkID,{}))
+                        except AttributeError:
+                            pass
+                except Exception:
+                    self._restorevalues(saved)
+                    raise
+                    
                 for blkID, blk in self.blocks.items():
                     _debug_ and tLogger.debug(ident(
                         f'getting S for {blkID}'
@@ -1369,10 +1381,6 @@ class rfCircuit(rfBase):
                     N = len(blk['ports'])
                     
                     if hasattr(blk['object'], 'getS'):
-                        try:
-                            blk['object'].set(**params.get(blkID,{}))
-                        except AttributeError:
-                            pass
                         # recursively get the lower level S-matrices
                         S = blk['object'].getS(f, Zbase=self.Zbase, 
                                                params=blk['params'], 
-- 
2.43.0


From bc36b01b9471dca41bfb31393a605c5436b31200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 073/106] fix: rfObject kept the caller's interpkws by
 reference

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index a09adb5..812a266 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -175,7 +175,7 @@ class rfObject():
         self.flim = kwargs.get('flim', [0.001, 1000.])
         
         self.interp = kwargs.get('interp',rcparams['interp'])
-        self.interpkws = kwargs.get('interpkws',rcparams['interpkws'])
+        self.interpkws = dict(kwargs.get('interpkws',rcparams['interpkws']))
             
         self.xpos = list(kwargs.get('xpos', [0.]*self.N))
                 
-- 
2.43.0


From 9130b0e87e0c009b58ee18d719cd5d72c203ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 074/106] fix: ReadTSF returned the caller's list of ports
 itself

---
 src/pyRFtk/ReadTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 43bd720..b359470 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -433,7 +433,7 @@ def ReadTSF(src, **kwargs):
                 f'ports were supplied as a format string "{Tports}" -> {ports}'))
             
         elif isinstance(Tports, list) and len(Tports) == N:
-            ports = Tports
+            ports = list(Tports)
             debug and tLogger.debug(ident(
                 f'ports were supplied as a list -> {ports}'))
         
-- 
2.43.0


From cf4a85311fc4e9bbdee587b9d682706937d7fb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 075/106] fix: an array added as a block was kept by reference

---
 src/pyRFtk/rfCircuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index d49e4be..d2e3664 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -573,6 +573,10 @@ class rfCircuit(rfBase):
         self.S = None
         self.invM = None
         
+        # (unlike objects) arrays remain the property of the caller
+        if isinstance(RFobj, (list, np.ndarray)):
+            RFobj = copy.deepcopy(RFobj)
+        
         if '.' in name:
             _debug_ and logident(f'---> replacing {name}')
             name, subblock = name.split('.',1)
-- 
2.43.0


From 72d41099faaf88965e907c68aba39ce520ebb527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 076/106] fix: rfTRL returned its internal (cached) arrays

---
 src/pyRFtk/rfTRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 0ffbd26..b7ef166 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -509,7 +509,7 @@ class rfTRL():
             
         if I0 is None and V0 is None:
             
-            return self.solved[f]['S']
+            return self.solved[f]['S'].copy()
             
         else:
             if I0 is None:
@@ -521,7 +521,7 @@ class rfTRL():
             UIS = self.solved[f]
             VI1s = np.tensordot(UIS['VI'], np.array([V0,I0]), axes=([1],[0]))
             
-            return self.solved[f]['xs'], VI1s[0], VI1s[1]
+            return self.solved[f]['xs'].copy(), VI1s[0], VI1s[1]
             
     #===========================================================================
     #
-- 
2.43.0


From c2693e0a04ad11bf017cd6f5f7670ca86ca1ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 077/106] fix: str_dict went on with the text of a previous
 call that had failed

---
 src/pyRFtk/str_dict.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/str_dict.py b/src/pyRFtk/str_dict.py
index f8e389e..226f3aa 100644
--- a/src/pyRFtk/str_dict.py
+++ b/src/pyRFtk/str_dict.py
@@ -13,10 +13,12 @@ def str_dict(adict):
     if isinstance(adict, dict):
         str_dict.s +=  '{\n'
         str_dict.N += 1
-        for key, val in adict.items():
-            str_dict.s += '    '*str_dict.N + ' '+key + ': '
-            str_dict(val)
-        str_dict.N -= 1
+        try:
+            for key, val in adict.items():
+                str_dict.s += '    '*str_dict.N + ' '+key + ': '
+                str_dict(val)
+        finally: # (also when the data is not valid)
+            str_dict.N -= 1
         str_dict.s += '    '*str_dict.N + '},\n'
     else:
         if isinstance(adict, tuple) and len(adict)==2:
-- 
2.43.0


From 3b48ac5ef8c18b9105b3b59b11bb79a82e758baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 078/106] fix: maxV and solve of a circuit described by data
 failed or used another frequency's solution

---
 src/pyRFtk/rfCircuit.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index d2e3664..0e8550d 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1522,6 +1522,10 @@ class rfCircuit(rfBase):
         
         # (implicitly updates and solves the circuit and fixes the port order)
         S = self.getS(f,Zbase,flags=flags)
+
+        if hasattr(self, 'sNp') and flags.get('sNp', True):
+            # S came from a touchstone: the circuit itself is to be solved too
+            self.getS(f, Zbase, flags=dict(flags, sNp=False))
         
         # incident voltage waves @  Zbase to the circuits feed ports
         Ea = [E[p] for p in self.ports]
@@ -1772,6 +1776,10 @@ class rfCircuit(rfBase):
         # implicitly updates and solves the circuit and fixes the port order
         # except if a sNp is present but in that case ...
         S = self.getS(f, Zbase, flags=flags)
+
+        if hasattr(self, 'sNp') and flags.get('sNp', True):
+            # S came from a touchstone: the circuit itself is to be solved too
+            self.getS(f, Zbase, flags=dict(flags, sNp=False))
         
         try:
             Ea = [E[p] for p in self.ports]
-- 
2.43.0


From 7489a9087a967227e69071b9af9c405fb9c5c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 079/106] fix: Solution of a circuit described by data failed
 when it contains circuits

---
 src/pyRFtk/rfCircuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 0e8550d..1611773 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1688,7 +1688,9 @@ class rfCircuit(rfBase):
                 _debug_ and tLogger.debug(ident(f'snodesleft: {snodesleft}'))
                 
                 # if hasattr(obj, 'Solution') and check:
-                if hasattr(obj, 'Solution') and (snodesleft != []):   
+                # (a touchstone only gives the solution at the external ports)
+                if hasattr(obj, 'Solution') and (snodesleft != []) and all(
+                        f'{blkID}.{_p}' in self.tSol for _p in blk['ports']):
                     # -> build the excitation to pass on to the Solution method.    
                     
                     # (the object's ports may have been renamed by addblock)
-- 
2.43.0


From e5c0f97672e78d8c33fe43db5a61d1324551ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:24 +0000
Subject: [PATCH 080/106] fix: Solution of a circuit described by data let the
 circuits inside replace what the data give at the ports

---
 src/pyRFtk/rfCircuit.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 1611773..5862000 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1654,7 +1654,11 @@ class rfCircuit(rfBase):
                     f' {An:13.3f}V+, {Bn:13.3f}V-'
                 ))
         
-        if nodes is None:
+        if hasattr(self, 'sNp') and flags.get('sNp', True):
+            # the touchstone does not describe the internal nodes
+            nodesleft = []
+
+        elif nodes is None:
             nodesleft = None
             
         elif nodes:
@@ -1688,9 +1692,7 @@ class rfCircuit(rfBase):
                 _debug_ and tLogger.debug(ident(f'snodesleft: {snodesleft}'))
                 
                 # if hasattr(obj, 'Solution') and check:
-                # (a touchstone only gives the solution at the external ports)
-                if hasattr(obj, 'Solution') and (snodesleft != []) and all(
-                        f'{blkID}.{_p}' in self.tSol for _p in blk['ports']):
+                if hasattr(obj, 'Solution') and (snodesleft != []):   
                     # -> build the excitation to pass on to the Solution method.    
                     
                     # (the object's ports may have been renamed by addblock)
-- 
2.43.0


From 82d842b6c0087f9ae27134958caa7f0de5c740c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:05 +0000
Subject: [PATCH 081/106] fix: the data of a circuit were attributed to its
 ports before they had their announced order

---
 src/pyRFtk/rfCircuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 5862000..879a8f3 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1345,6 +1345,9 @@ class rfCircuit(rfBase):
                 # note this bypasses the solving of the nested RF objects
                 _debug_ and tLogger.debug(ident(f'using sNp'))
                     
+                # (the data are in the announced order of the ports)
+                if self.ports:
+                    self._orderports()
                 M = self.sNp.getS(f, Zbase=self.Zbase)
 
             else:
-- 
2.43.0


From b3b5fb4885d488a8d9c7496ba42b099b800f1bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:08 +0000
Subject: [PATCH 082/106] fix: comparing tabulated objects raised an error for
 any two of them

---
 src/pyRFtk/rfObject.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 812a266..c639971 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -383,23 +383,39 @@ class rfObject():
     #
     def __eq__(self, other, verbose=False):
         
+        if not isinstance(other, rfObject):
+            return NotImplemented
+        
+        # the results of the last query do not make a difference
+        derived = ['f', 'S', 'interpOK', 'interpM', 'interpA']
+        self._sort_fs_()
+        other._sort_fs_()
+        
+        def differ(a, b):
+            if isinstance(a, dict) and isinstance(b, dict):
+                return a.keys() != b.keys() or any(differ(a[k], b[k]) for k in a)
+            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+                if np.size(a) == np.size(b) == 0:
+                    return False
+                return np.shape(a) != np.shape(b) or not np.allclose(a, b)
+            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
+                return len(a) != len(b) or any(map(differ, a, b))
+            return bool(a != b)
+        
         diflist = []
-        otherval = [val for val in other.__dict__]
+        otherval = [val for val in other.__dict__ if val not in derived]
         for val in self.__dict__:
+            if val in derived:
+                continue
+            
             if val not in otherval:
                 diflist.append((val,'<'))
             
             else:
                 otherval.pop(otherval.index(val))
                 
-                if val in ['fs', 'Ss']:
-                    if not (len(self.fs) == len(other.fs)
-                        and np.allclose(self.__dict__[val], other.__dict__[val])):
-                        diflist.append((val,'!='))
-                        
-                else:
-                    if self.__dict__[val] != other.__dict__[val]:
-                        diflist.append((val,'!='))
+                if differ(self.__dict__[val], other.__dict__[val]):
+                    diflist.append((val,'!='))
                         
         if otherval:
             diflist += [(val,'>') for val in otherval]
-- 
2.43.0


From d5cd5a4801ebb4eaf4e479a4bd64634e0d4f39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 083/106] fix: an empty table came back from pickling without
 its shape and its complex type

---
 src/pyRFtk/rfObject.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index c639971..a9608ff 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -277,11 +277,12 @@ class rfObject():
             if var not in ['fs', 'Ss','Zcs','Gms']:
                 self.__dict__[var] = value
         
-        # get the arrays back
-        self.fs = np.array(d['fs'])
-        self.Ss = np.array(d['Ss'])
-        self.Zcs = np.array(d['Zcs'])
-        self.Gms = np.array(d['Gms'])
+        # get the arrays back (also the empty ones keep their type and shape)
+        N = d['N']
+        self.fs = np.array(d['fs'], dtype=float)
+        self.Ss = np.array(d['Ss'], dtype=complex).reshape(len(d['Ss']), N, N)
+        self.Zcs = np.array(d['Zcs'], dtype=complex).reshape(len(d['Zcs']), N)
+        self.Gms = np.array(d['Gms'], dtype=complex).reshape(len(d['Gms']), N)
 
     #===========================================================================
     #
-- 
2.43.0


From 6a1a2a1339d3b070ffe3378a9bf93f237a1cea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:11 +0000
Subject: [PATCH 084/106] fix: params of addblock changed the object in its
 other places, were not those of the place in solutions and ignored at a
 replacement

---
 src/pyRFtk/rfCircuit.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 879a8f3..b4cb2ca 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -556,8 +556,9 @@ class rfCircuit(rfBase):
                                 names.
                             - or ommitted to generate a generic set of names
 
-        :param params: the parameters that will be supplied to the RFobject's
-                            getS(...) method
+        :param params: the parameters that are set in this block (or will be
+                            supplied to the RFobject's getS(...) method if it 
+                            has no set method)
         :param kwargs: relpos: the (relative) position of the RFobject
                             
         """
@@ -577,6 +578,13 @@ class rfCircuit(rfBase):
         if isinstance(RFobj, (list, np.ndarray)):
             RFobj = copy.deepcopy(RFobj)
         
+        # the params only concern this block (not the other places where the
+        # object is used)
+        if params and hasattr(RFobj, 'set'):
+            RFobj = RFobj.copy()
+            RFobj.set(**params)
+            params = {}
+        
         if '.' in name:
             _debug_ and logident(f'---> replacing {name}')
             name, subblock = name.split('.',1)
@@ -602,8 +610,6 @@ class rfCircuit(rfBase):
             
             subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)
             self.blocks[name]['object'] = subblockobj
-            if '.' not in subblock:
-                self.blocks[name]['params'] = copy.deepcopy(params)
                 
             _debug_ and logident(
                 f'< [circuit.addblock] (replaced at a deeper level)', -1
@@ -619,6 +625,7 @@ class rfCircuit(rfBase):
             #TODO: maybe some other checks are in order / necessary
             
             self.blocks[name]['object'] = RFobj
+            self.blocks[name]['params'] = copy.deepcopy(params)
             
             _debug_ and tLogger.debug(ident(
                 f'< [circuit.addblock] (replaced at this level)', -1
-- 
2.43.0


From cd948cebb91da39814b339483fafd82770e77bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:14 +0000
Subject: [PATCH 085/106] fix: str_dict: no state shared between calls, the
 texts of two threads mixed

---
 src/pyRFtk/str_dict.py | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/pyRFtk/str_dict.py b/src/pyRFtk/str_dict.py
index 226f3aa..cd43f18 100644
--- a/src/pyRFtk/str_dict.py
+++ b/src/pyRFtk/str_dict.py
@@ -1,37 +1,24 @@
 __updated__ = "2021-12-16 15:50:48"
 
-def str_dict(adict):
-    
-    try:
-        str_dict.N
-    except AttributeError:
-        str_dict.N = 0
-    
-    if str_dict.N == 0: # not a recursive call
-        str_dict.s = ''
+def str_dict(adict, N=0):
     
     if isinstance(adict, dict):
-        str_dict.s +=  '{\n'
-        str_dict.N += 1
-        try:
-            for key, val in adict.items():
-                str_dict.s += '    '*str_dict.N + ' '+key + ': '
-                str_dict(val)
-        finally: # (also when the data is not valid)
-            str_dict.N -= 1
-        str_dict.s += '    '*str_dict.N + '},\n'
+        s = '{\n'
+        for key, val in adict.items():
+            s += '    '*(N+1) + ' '+key + ': ' + str_dict(val, N+1)
+        s += '    '*N + '},\n'
     else:
         if isinstance(adict, tuple) and len(adict)==2:
             if len(adict[0]) == 1:
-                str_dict.s += f'node [{"N/A" if adict[0][0] is None else "%7.4f"%adict[0][0]} m],\n'
+                s = f'node [{"N/A" if adict[0][0] is None else "%7.4f"%adict[0][0]} m],\n'
             else:
-                str_dict.s += (
+                s = (
                     f'line [{len(adict[0])} pts, '
                     f'{adict[0][0]:7.4f}m to  {adict[0][-1]:7.4f}m],\n')
         else:
-            str_dict.s += f'?? {type(adict)},\n'
+            s = f'?? {type(adict)},\n'
     
-    return str_dict.s
+    return s
         
 if __name__ == '__main__':
     import pickle
-- 
2.43.0


From 406e15167f12dc56f508a40e79de215b1edc7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 086/106] fix: the answer of a line, a coupler or rfBase was
 its last evaluation: changing it changed what is shown

---
 src/pyRFtk/rfBase.py    | 2 +-
 src/pyRFtk/rfCoupler.py | 2 +-
 src/pyRFtk/rfTRL.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 1795673..6094d07 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -257,7 +257,7 @@ class rfBase():
         _debug_ and logident(f'self.Ss={self.Ss}')
         S = self.Ss[k[0],:,:].copy()
         _debug_ and logident(f'S[k]={S}')
-        self.f, self.S = f, S
+        self.f, self.S = f, S.copy()
         
         _debug_ and logident('<')
         return S
diff --git a/src/pyRFtk/rfCoupler.py b/src/pyRFtk/rfCoupler.py
index f13eb4b..103f742 100644
--- a/src/pyRFtk/rfCoupler.py
+++ b/src/pyRFtk/rfCoupler.py
@@ -168,7 +168,7 @@ class rfCoupler(rfBase):
              [B, 0., 0., A],
              [0., B, A, 0.]])
         
-        return self.S
+        return self.S.copy()
 #===============================================================================
 #
 # _ _ m a i n _ _
diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index b7ef166..3f2497f 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -548,7 +548,7 @@ class rfTRL():
             else:
                 M = self.solveVI(f)
             
-            self.f, self.S = f, M 
+            self.f, self.S = f, M.copy()
             
             if Zbase and Zbase != self.Zbase:
                 M = ConvertGeneral(Zbase,M,self.Zbase)
-- 
2.43.0


From c27be270cf3c56e1442f4a53d5b1fc83f48b2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 087/106] fix: rfObject shared its arguments with the caller:
 representation and equality changed with them

---
 src/pyRFtk/rfObject.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index a9608ff..ff42154 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -93,7 +93,10 @@ class rfObject():
             self.args = args
         
         if not hasattr(self,'kwargs'):
-            self.kwargs = kwargs.copy()
+            # (lists and such stay the caller's)
+            self.kwargs = {kw: copy.copy(val)
+                           if isinstance(val, (list, dict, np.ndarray)) else val
+                           for kw, val in kwargs.items()}
         
         self.Id = kwargs.pop('Id',f'{type(self).__name__}_{_newID()}')
         
@@ -172,7 +175,7 @@ class rfObject():
         self.Zbase = kwargs.get('Zbase', rcparams['Zbase'])
         self.funit = kwargs.get('funit', rcparams['funit'])
         self.fscale = FUNITS[self.funit.upper()]
-        self.flim = kwargs.get('flim', [0.001, 1000.])
+        self.flim = list(kwargs.get('flim', [0.001, 1000.]))
         
         self.interp = kwargs.get('interp',rcparams['interp'])
         self.interpkws = dict(kwargs.get('interpkws',rcparams['interpkws']))
-- 
2.43.0


From fa685ab6582f0d52b7dfd5c1cbd585d1e1d8ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 088/106] fix: the description of a circuit showed wrong
 equations for junctions of created ports

---
 src/pyRFtk/rfCircuit.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index b4cb2ca..9a3524e 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -159,9 +159,8 @@ class rfCircuit(rfBase):
                 sij = Mr[i2+N+k-i1]
                 s += f'[{i2+N+k-i1:3d}] {sij.real:+7.4f}{sij.imag:+7.4f}j '
             elif typ[0] == 'C':
-                idxA, idxBs = self.C[port]
-                idxs = sorted([idxA] + idxBs)
-                for idx in idxs:
+                # a created port can be in two junctions (self.C has the last)
+                for idx in np.flatnonzero(Mr):
                     sij = Mr[idx]
                     s += f'[{idx:3d}] {sij.real:+7.4f}{sij.imag:+7.4f}j '
             elif typ[0] == 'D':
-- 
2.43.0


From cf64be2ef69c0063fdb638cadd16da6000fde465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 089/106] fix: the ports of a circuit that replaces a block
 were described in an order that is not theirs

---
 src/pyRFtk/rfCircuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 9a3524e..0b30ba0 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -623,6 +623,10 @@ class rfCircuit(rfBase):
             
             #TODO: maybe some other checks are in order / necessary
             
+            # the ports of a circuit must be in the order it will return them
+            if hasattr(RFobj, '_orderports'):
+                RFobj._orderports()
+            
             self.blocks[name]['object'] = RFobj
             self.blocks[name]['params'] = copy.deepcopy(params)
             
-- 
2.43.0


From ed376d8c273cf1693d709ac7a240a73fe520a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 090/106] fix: a modified line described the evaluation before
 the modification

---
 src/pyRFtk/rfTRL.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 3f2497f..dfca7fc 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -361,6 +361,8 @@ class rfTRL():
                 self.xpos = [self.xpos[0], self.L + self.xpos[0]]
         
         self.solved = {}
+        if modified:
+            self.f, self.S = np.nan, None
         
         return modified
     
-- 
2.43.0


From 72cef82293e462baa8c693d59e316d0cd809fdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 091/106] fix: a modified table described the evaluation before
 the modification

---
 src/pyRFtk/rfObject.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index ff42154..a13d685 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -299,7 +299,7 @@ class rfObject():
         s += '  ]'
         for kw, val in self.kwargs.items():
             s += ',\n'
-            s += '  %s = %r' % (kw,val)
+            s += '  %s = %r' % (kw, val)
         if 'Zbase' not in self.kwargs:
             s += f'\n  Zbase = {self.Zbase} [default]'
         s += '\n)'
@@ -355,6 +355,7 @@ class rfObject():
         self.Ss[k,:,:] = S
         self.sorted = False
         self.interpOK = False
+        self.f, self.S = None, None
     
     #===========================================================================
     #
@@ -546,6 +547,7 @@ class rfObject():
         self.Ss = ConvertGeneral(newZbase, self.Ss, self.Zbase, 'V', 'V')
         self.Zbase = newZbase
         self.interpOK = False
+        self.f, self.S = None, None
     
     #===========================================================================
     #
@@ -638,6 +640,7 @@ class rfObject():
             raise SystemError(f'{whoami}: Shape of S does not match ')
                 
         self.interpOK = False
+        self.f, self.S = None, None
         self.interpA = None
         self.interpM = None
         
@@ -696,6 +699,7 @@ class rfObject():
         self.N = len(self)
         self.sorted = bool(np.all(np.diff(self.fs) > 0))
         self.interpOK = False
+        self.f, self.S = None, None
         
     #===========================================================================
     #
@@ -801,5 +805,6 @@ class rfObject():
         
         self.Ss = Ss
         self.interpOK = False
+        self.f, self.S = None, None
 
 
-- 
2.43.0


From 35a11fd313f273d62fe02ba31bf460d19727cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 092/106] fix: the description of a table showed the Zbase,
 ports and positions it was made with

---
 src/pyRFtk/rfObject.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index a13d685..9ab4195 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -297,9 +297,10 @@ class rfObject():
         for p in self.ports:
             s += '    %r,\n' % p
         s += '  ]'
+        present = {'Zbase': self.Zbase, 'ports': self.ports, 'xpos': self.xpos}
         for kw, val in self.kwargs.items():
             s += ',\n'
-            s += '  %s = %r' % (kw, val)
+            s += '  %s = %r' % (kw, present.get(kw, val))
         if 'Zbase' not in self.kwargs:
             s += f'\n  Zbase = {self.Zbase} [default]'
         s += '\n)'
-- 
2.43.0


From 9a5cc363f6aa8a9db6108193e77e712ae141239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:09 +0000
Subject: [PATCH 093/106] fix: rfBase.write_tsf emptied an existing file when
 the writing was refused

---
 src/pyRFtk/rfBase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 6094d07..50eb922 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -423,8 +423,10 @@ class rfBase():
     #
     def write_tsf(self, tsbasename, **kwargs):
         
+        s = self.tsf2str(**kwargs)
+        
         with open(f'{tsbasename}.s{len(self)}p', 'w') as f:
-            f.write(self.tsf2str(**kwargs))
+            f.write(s)
         
     #===========================================================================
     #
-- 
2.43.0


From c4a3644d4444d53d9fee10f9d4403ea4f7e066fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:09 +0000
Subject: [PATCH 094/106] fix: rfObject.sortports ignored an order given as a
 tuple

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 9ab4195..eab5c74 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -438,7 +438,7 @@ class rfObject():
     #
     def sortports(self, order=str.__lt__):
         
-        if isinstance(order,list):
+        if isinstance(order, (list, tuple)):
             idxs = [self.ports.index(p1) for p1 in order]
             idxs += [k for k, p1 in enumerate(self.ports) if k not in idxs]
             if len(idxs) != len(self.ports):
-- 
2.43.0


From 9c115d264a5928ad05e07300aa2e5f43be422282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:09 +0000
Subject: [PATCH 095/106] fix: rfTRL took a numpy integer dx for a step in
 meters

---
 src/pyRFtk/rfTRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index dfca7fc..6a90155 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -309,7 +309,7 @@ class rfTRL():
         s += f'| Zbase: {self.Zbase} Ohm \n'
         s += f'| ports: {self.ports} \n'
         s += f'| length: {self.L:.3f}m; '
-        if isinstance(self.dx, int):
+        if isinstance(self.dx, (int, np.integer)):
             s += f'dx: {self.dx} pts per wavelength \n'
         else:
             s += f'dx: {self.dx:.3f}m \n'
@@ -428,7 +428,7 @@ class rfTRL():
         
         if f not in self.solved:
             
-            if isinstance(self.dx, int): # step = fraction of wavelength
+            if isinstance(self.dx, (int, np.integer)): # step = fraction of wavelength
                 
                 if self.constant:
 
-- 
2.43.0


From 593778e471bb509bd9b8ec9db2ff35e11ddef820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:09 +0000
Subject: [PATCH 096/106] fix: rfTRL was left without positions for an xpos
 given as a tuple, an array or a numpy integer

---
 src/pyRFtk/rfTRL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 6a90155..89a59bb 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -197,15 +197,15 @@ class rfTRL():
         
         xpos = kwargs.pop('xpos', [0., self.L])
                         
-        if isinstance(xpos, list):
+        if isinstance(xpos, (list, tuple, np.ndarray)):
             if len(xpos) == 2:
-                self.xpos = xpos[:]
+                self.xpos = list(xpos)
             else:
                 raise ValueError(
                     'rfTRL.__init__: port count mismatch'
                 )
         
-        elif isinstance(xpos, (float,int)):
+        elif isinstance(xpos, (float, int, np.integer)):
             self.xpos = [xpos, self.L + xpos]
         
         #------------------------------------------------------------ touchstone
-- 
2.43.0


From c633c22110173703ba2367f9b790ddb938242508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:09 +0000
Subject: [PATCH 097/106] fix: rfObject.deembed refused a numpy integer length

---
 src/pyRFtk/rfObject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index eab5c74..bf0c92d 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -751,7 +751,7 @@ class rfObject():
         
         for port, v in ports.items():
             if not ((isinstance(v, tuple) and len(v) == 2) or
-                    isinstance(v, (int, float, dict))):
+                    isinstance(v, (int, float, np.integer, dict))):
                 raise ValueError(
                     f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
     
@@ -763,7 +763,7 @@ class rfObject():
                 if isinstance(v,tuple) and len(v) == 2:
                     L, Z = v
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
-                elif isinstance(v, (int, float)):
+                elif isinstance(v, (int, float, np.integer)):
                     L, Z = v, self.Zbase
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
                 elif isinstance(v, dict):
-- 
2.43.0


From fe1c14ec6c393b8cad9d6e8b4792a3fe67021ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:09 +0000
Subject: [PATCH 098/106] fix: rfBase.maxV refused a numpy integer position

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 50eb922..bd37989 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -448,7 +448,7 @@ class rfBase():
             raise ValueError(f'{whoami()}: {msg}')
         
 
-        if isinstance(xpos, (int, float)):
+        if isinstance(xpos, (int, float, np.integer)):
             if hasattr(self, 'xpos'):
                 xpos = list(xpos + np.array(self.xpos))
             else:
-- 
2.43.0


From 79abf0df968728bfb225aa524f677b34e745857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:09 +0000
Subject: [PATCH 099/106] fix: rfCircuit.maxV dropped the position of a port
 given as a numpy integer

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 0b30ba0..bf492c4 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1780,7 +1780,7 @@ class rfCircuit(rfBase):
         #     raise ValueError(f'{whoami(__package__)}: {msg}')
             
         ppos = dict([(f'{Id}.{_p}', 
-                      (self.xpos[_kp] if isinstance(self.xpos[_kp], (float,int)) else 0.) + relpos)
+                      (self.xpos[_kp] if isinstance(self.xpos[_kp], (float, int, np.integer)) else 0.) + relpos)
                       for _kp, _p in enumerate(self.ports)])
         if _debug_:
             logident('ppos = {')
-- 
2.43.0


From 2c2a3356203fb66224d77632d395dd45b449b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:17 +0000
Subject: [PATCH 100/106] fix: plotVSWs showed no node of which the position is
 a numpy integer

---
 src/pyRFtk/plotVSWs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index b29874e..3b82918 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -75,7 +75,7 @@ def plotVSWs(VSWs, maxlev=4, Id = None,  **kwargs):
                 
             elif plotnodes:
                 _debug_ and tLogger.debug(ident(f'node'))
-                if isinstance(xs[0], (float,int)):
+                if isinstance(xs[0], (float, int, np.integer)):
                     plt.plot(xs, absV, 'd', label=lbl)
                     
         _debug_ and tLogger.debug(ident(f'< [plotit]',-1))
@@ -147,7 +147,7 @@ def plotVSWs(VSWs, maxlev=4, Id = None,  **kwargs):
                             curdist2, curBLK, curUp, curX = ndist2, BLK, yq, xq
                 else:
                     _debug_ and tLogger.debug(ident(f'(node)'))
-                    if isinstance(xs[0], (float, int)):
+                    if isinstance(xs[0], (float, int, np.integer)):
                         ndist2 = (xs[0] - xp)**2 + (ks * (Us[0] - yp))**2
                         if ndist2 < curdist2:
                             curdist2, curBLK, curUp, curX = ndist2, BLK, Us[0], xs[0]
-- 
2.43.0


From 684332e11787b94fdd021ba3ec6b93ee02067b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:50 +0000
Subject: [PATCH 101/106] fix: an infinite Z (or Y) in rfCircuit.terminate gave
 nan instead of an open (short) circuit

---
 src/pyRFtk/rfCircuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index bf492c4..bd98eca 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -945,6 +945,11 @@ class rfCircuit(rfBase):
             raise ValueError(
                 f'{whoami(__package__)}: only one of "RC", "Y", "Z" kwargs allowed')  
                 
+        if np.isinf(kwargs.get('Z', 0.)):   # open circuit
+            kwargs = {'Y': 0.}
+        elif np.isinf(kwargs.get('Y', 0.)): # short circuit
+            kwargs = {'Z': 0.}
+            
         if 'Z' in kwargs:
             Z = kwargs.pop('Z')
             rho = (Z - self.Zbase) / (Z + self.Zbase)
-- 
2.43.0


From fc2fc65b158b38137c42fb6cc30bc86c9bfd0816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:26 +0000
Subject: [PATCH 102/106] fix: the exit handler looked for the log file in the
 directory of that moment (left it behind or removed another one)

---
 src/pyRFtk/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/config.py b/src/pyRFtk/config.py
index dcdd4e4..41a9394 100644
--- a/src/pyRFtk/config.py
+++ b/src/pyRFtk/config.py
@@ -11,7 +11,7 @@ import sys
 import traceback
 import atexit
 
-LOGFILE = 'rfCommon.log'
+LOGFILE = os.path.abspath('rfCommon.log')
 #===============================================================================
 #
 #    setup logging
-- 
2.43.0


From 0cd53f3413a84d55f73e2b54c1763a4d22d8358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:53 +0000
Subject: [PATCH 103/106] fix: the names of the ports given to ReadTSF as a
 tuple or an array were ignored

---
 src/pyRFtk/ReadTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index b359470..a9fc0ca 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -432,7 +432,7 @@ def ReadTSF(src, **kwargs):
             debug and tLogger.debug(ident(
                 f'ports were supplied as a format string "{Tports}" -> {ports}'))
             
-        elif isinstance(Tports, list) and len(Tports) == N:
+        elif isinstance(Tports, (list, tuple, np.ndarray)) and len(Tports) == N:
             ports = list(Tports)
             debug and tLogger.debug(ident(
                 f'ports were supplied as a list -> {ports}'))
-- 
2.43.0


From b974a2ec886d8f3c261868b988f127f990b91d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:53 +0000
Subject: [PATCH 104/106] fix: sortports ignored an order given as an array
 (sorted alphabetically)

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index bf0c92d..f1cd2ce 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -438,7 +438,7 @@ class rfObject():
     #
     def sortports(self, order=str.__lt__):
         
-        if isinstance(order, (list, tuple)):
+        if isinstance(order, (list, tuple, np.ndarray)):
             idxs = [self.ports.index(p1) for p1 in order]
             idxs += [k for k, p1 in enumerate(self.ports) if k not in idxs]
             if len(idxs) != len(self.ports):
-- 
2.43.0


From befd956dc694d6ce1fab05d8f6bd52cec0e19491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:53 +0000
Subject: [PATCH 105/106] fix: rfTRL ignored a position given as a numpy float
 (no xpos)

---
 src/pyRFtk/rfTRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 89a59bb..b44bc95 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -205,7 +205,7 @@ class rfTRL():
                     'rfTRL.__init__: port count mismatch'
                 )
         
-        elif isinstance(xpos, (float, int, np.integer)):
+        elif isinstance(xpos, (float, int, np.number)):
             self.xpos = [xpos, self.L + xpos]
         
         #------------------------------------------------------------ touchstone
-- 
2.43.0


From a6d855bb07f7e8a39ce7a0b557623cd314ac7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:53 +0000
Subject: [PATCH 106/106] fix: a line section at zero frequency gave nan or a
 ZeroDivisionError

---
 src/pyRFtk/resolveTLparams.py |  2 +-
 src/pyRFtk/rfTRL.py           | 26 +++++++++++++++++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index cebee6d..d1f4ecf 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -407,7 +407,7 @@ class TLresolver():
     def __str__(self, full=True):
         l1 = max([len(self.kwset[kw]["source"]) for kw in self.order])
         s = ''
-        f0 = self.f0 if self.f0 not in [np.nan, None] else 1E6
+        f0 = self.f0 if self.f0 not in [np.nan, None, 0] else 1E6
         s += f'parameters / values at {f0/1e6:.3f} MHz, x=0, w = 2pi f\n'
         for kw in self.order:
             sig = signature(getattr(self, kw)).parameters
diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index b44bc95..cad184f 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -420,7 +420,7 @@ class rfTRL():
             
             gm = (self.rjwL(w,x) * self.gjwC(w, x))**0.5
             try:
-                return 2 * np.pi / np.imag(gm)
+                return 2 * np.pi / np.imag(gm) if np.imag(gm) else +np.inf
             except ZeroDivisionError:
                 return +np.inf
 
@@ -439,7 +439,7 @@ class rfTRL():
 
                     xs = [0.]
                     while xs[-1] < self.L:
-                        xs.append(xs[-1] + wavlen(w,xs[-1])/self.dx)
+                        xs.append(xs[-1] + min(wavlen(w,xs[-1])/self.dx, self.L))
                     
                     # may have overshot the end point so we rescale everything
                     xs = (np.array(xs) * self.L/xs[-1] if self.L > 0 
@@ -475,15 +475,23 @@ class rfTRL():
                 # so one does not have to solve the differential eqn
                 
                 gm = (self.rjwL(w,0) * self.gjwC(w,0)) ** 0.5
-                Zc = self.rjwL(w,0) / gm
                 
-                egmx = np.exp(gm * xs)
-                egmx1 = 1/egmx
+                if gm == 0: # (at least) one of rjwL and gjwC is 0, e.g. at 0 Hz
+                    U10 = np.ones(xs.shape, dtype=complex)
+                    I10 = self.gjwC(w,0) * xs
+                    U01 = self.rjwL(w,0) * xs
+                    I01 = U10
                 
-                U10 = 0.5 * (egmx + egmx1)
-                I10 = 0.5 * (egmx - egmx1) / Zc
-                U01 = Zc **2 * I10
-                I01 = U10
+                else:
+                    Zc = self.rjwL(w,0) / gm
+                    
+                    egmx = np.exp(gm * xs)
+                    egmx1 = 1/egmx
+                    
+                    U10 = 0.5 * (egmx + egmx1)
+                    I10 = 0.5 * (egmx - egmx1) / Zc
+                    U01 = Zc **2 * I10
+                    I01 = U10
                 
             else:
                 
-- 
2.43.0

