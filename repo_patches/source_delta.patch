From 84bfccd6c3d2a2dcb52f9a14f14f801fbe80d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 01/68] fix: BW with one process ignores impossible training
 traces like the parallel path

---
 jajapy/base/BW.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 43ed06d..267fde3 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1644,9 +1644,10 @@ class BW:
 			tasks = []
 			for seq,times in zip(training_set.sequences,training_set.times):
 				tasks.append(p.apply_async(self._processWork, [seq, times,]))
-			return [res.get() for res in tasks if res.get() != False]
+			results = [res.get() for res in tasks]
 		else:
-			return [self._processWork(seq, times) for seq,times in zip(training_set.sequences,training_set.times)]
+			results = [self._processWork(seq, times) for seq,times in zip(training_set.sequences,training_set.times)]
+		return [res for res in results if res is not False]
 	
 	def _endPrint(self,it,rt):
 		print()
-- 
2.43.0


From 7039dace7e51b9a7baa81959c4ca6918d1166b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 02/68] fix: BW keeps fixed CTMC rates of states no training
 trace visits

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 267fde3..c8200cb 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -747,7 +747,7 @@ class BW:
 				num[s] = self.h.matrix[s]
 
 		matrix = num/den[:, newaxis]
-		matrix = self.h.matrix*self.fixed_parameters + matrix
+		matrix = where(self.fixed_parameters, self.h.matrix, matrix)
 
 		self.h.matrix = matrix
 		return currentloglikelihood
-- 
2.43.0


From e94a2b8dcf319ddcd60c85922f843794e7191d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 03/68] fix: BW keeps the deviations of GoHMM states no
 training trace visits

---
 jajapy/base/BW.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index c8200cb..eeb235c 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -843,6 +843,7 @@ class BW:
 			if den[s] == 0.0:
 				den[s] = 1.0
 				mu[s], va[s] = self.h.output[s].T
+				va[s] = va[s]**2
 				a[s] = self.h.matrix[s]
 		
 		output_mu = (mu.T/den).T
-- 
2.43.0


From e0395c5f0b45c681d111f294aa81844466d48e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 04/68] fix: an absorbing CTMC/PCTMC state has jump probability
 0, not nan or infinity

---
 jajapy/base/BW.py     | 2 +-
 jajapy/ctmc/CTMC.py   | 5 ++++-
 jajapy/pctmc/PCTMC.py | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index eeb235c..91ac832 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -726,7 +726,7 @@ class BW:
 					if timed:
 						p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 					else:
-						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq]) # not sure
+						p = array([self._h_tau(s,ss,o) for o in obs_seq])
 					num[s,ss] = dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 				else:
 					num[s,ss] = 0.0
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 872e9b4..a7782c4 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -131,7 +131,10 @@ class CTMC(Base_MC):
 		float
 			A probability.
 		"""
-		return self.l(s1,s2, obs)/self.e(s1)
+		e = self.e(s1)
+		if e == 0.0:
+			return 0.0
+		return self.l(s1,s2, obs)/e
 	
 	def expected_time(self, s:int) -> float:
 		"""
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index a90d86c..f2b9e32 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -141,7 +141,7 @@ class PCTMC(Parametric_Model):
 		try:
 			e = self.e(s1)
 			if e == 0.0:
-				return inf
+				return 0.0
 			return self.l(s1,s2, obs)/e
 		except ValueError:
 			print("WARN: cannot compute the exit-rate of non-instantiated state "+str(s1))
-- 
2.43.0


From f55e44396aca48415bb5d52f494180afbb4d2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 05/68] fix: timed CTMC loglikelihood keeps traces whose
 log-density is 0

---
 jajapy/ctmc/CTMC.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index a7782c4..8b67814 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -254,11 +254,10 @@ class CTMC(Base_MC):
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-				temp = [res.get() for res in tasks if res.get() != False]
+				temp = [res.get() for res in tasks]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
-				while False in temp:
-					temp.remove(False)
+			temp = [res for res in temp if res is not False]
 			if len(temp) == 0:
 				return -9999
 			return sum(temp)/sum(traces.times)
-- 
2.43.0


From 14dcff88148e20bc12f77a21a8032a9fd8c6b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 06/68] fix: timed PCTMC loglikelihood accepts traces the model
 cannot generate

---
 jajapy/pctmc/PCTMC.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index f2b9e32..ea728fa 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -334,6 +334,8 @@ class PCTMC(Parametric_Model):
 				new_arr[s] = dot(prev_arr,p)
 			prev_arr = new_arr
 		last_arr = prev_arr * (array(self.labelling) == obs_seq[-1])
+		if last_arr.sum() == 0.0:
+			return False
 		return log(last_arr.sum())*times
 
 	def logLikelihood(self,traces: Set) -> float:
-- 
2.43.0


From 9a28e709ecf741889503566094abad12e624649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 07/68] fix: untimed loglikelihood of an instantiated PCTMC no
 longer raises AttributeError

---
 jajapy/base/Parametric_Model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index a6e29e0..0ccea98 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -334,6 +334,11 @@ class Parametric_Model(Model):
 		self._checkStateIndex(state)
 		return self.labelling[state]
 	
+	def b(self,state:int, label:str) -> float:
+		if self.getLabel(state) == label:
+			return 1.0
+		return 0.0
+
 	def getAlphabet(self) -> list:
 		"""
 		Returns the alphabet of this model.
-- 
2.43.0


From 9691b8c86395d531f1237d95c88bffa1aaf746d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 08/68] fix: single-process loglikelihood no longer reorders
 the user's Set

---
 jajapy/base/Model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 3741de2..4f68d24 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -317,6 +317,7 @@ class Model:
 		output: float
 			loglikelihood of ``sequences`` under this model.
 		"""
+		sequences = Set(sequences.sequences,sequences.times,sequences.type)
 		sequences.sort()
 		loglikelihood = 0.0
 		alpha_matrix = self._initAlphaMatrix(len(sequences.sequences[0]))
-- 
2.43.0


From b6c860aaf9a17f97cf96a380492d9cce15539b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 09/68] fix: single-process loglikelihood counts traces ending
 in an absorbing state

---
 jajapy/base/Model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 4f68d24..e1a6193 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -332,8 +332,9 @@ class Model:
 					common += 1
 					
 			alpha_matrix = self._updateAlphaMatrix(sequence,common,alpha_matrix)
-			if alpha_matrix[-1].sum() > 0:
-				loglikelihood += log(alpha_matrix[-1].sum()) * times
+			last = dot(alpha_matrix[-2],array([self.b(s,sequence[-1]) for s in range(self.nb_states)]))
+			if last > 0:
+				loglikelihood += log(last) * times
 
 		return loglikelihood / sum(sequences.times)
 
-- 
2.43.0


From 10436f15d6645a629d597e6e01363c9806ec3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 10/68] fix: merging into an empty Set keeps integer
 multiplicities

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index b3f0452..f91d2f3 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -198,7 +198,7 @@ class Set:
 		for i in range(len(s2.sequences)):
 			if not s2.sequences[i] in self.sequences:
 				self.sequences.append(s2.sequences[i])
-				self.times = append(self.times, s2.times[i])
+				self.times = append(array(self.times,dtype=int), s2.times[i])
 			else:
 				self.times[self.sequences.index(s2.sequences[i])] += s2.times[i]
 	
-- 
2.43.0


From be38dab32b24db4c3c73dacbe66c78b69e918917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 11/68] fix: a Set of traces with a single observation can be
 created

---
 jajapy/base/Set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index f91d2f3..365fb84 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -34,7 +34,8 @@ class Set:
 		if t != None:
 			self.type = t
 		else:
-			if (type(sequences[0][1])  == float64 or type(sequences[0][1])  == float) and type(sequences[0][0])  == str:
+			first = next((s for s in sequences if len(s) > 1), [None,None])
+			if (type(first[1])  == float64 or type(first[1])  == float) and type(first[0])  == str:
 				self.type = 4 # timed CTMC
 			elif type(sequences[0][0])  == list:
 				self.type = 3 # GoHMM
-- 
2.43.0


From 535e71e9b60eb286458e8c1f4194b375527495a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 12/68] fix: CTMC.toMC no longer turns the CTMC itself into the
 MC

---
 jajapy/ctmc/CTMC.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 8b67814..d216894 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -276,11 +276,12 @@ class CTMC(Base_MC):
 		MC
 			An equivalent untimed model.
 		"""
-		new_matrix = self.matrix
+		new_matrix = array(self.matrix,dtype=float)
 		for i in range(self.nb_states):
-			new_matrix[i] /= self.e(i)
+			if self.e(i) != 0.0:
+				new_matrix[i] /= self.e(i)
 
-		return MC(new_matrix,self.labelling,name)
+		return MC(new_matrix,list(self.labelling),name)
 
 	def save(self,file_path:str) -> None:
 		"""Save the model into a text file.
-- 
2.43.0


From cc8d89d12689b1bcf147a706ad674b1ebbc78d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 13/68] fix: createMC/MDP/CTMC/PCTMC no longer modify the lists
 they are given

---
 jajapy/ctmc/CTMC.py   | 2 +-
 jajapy/mc/MC.py       | 2 +-
 jajapy/mdp/MDP.py     | 2 +-
 jajapy/pctmc/PCTMC.py | 5 +++--
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index d216894..0f35c0e 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -491,7 +491,7 @@ def createCTMC(transitions: list, labelling: list, initial_state,
 	for t in transitions:
 		res[states.index(t[0])][states.index(t[1])] = t[2]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
 	if type(initial_state) == int:
diff --git a/jajapy/mc/MC.py b/jajapy/mc/MC.py
index a7834b0..328d5c7 100644
--- a/jajapy/mc/MC.py
+++ b/jajapy/mc/MC.py
@@ -335,7 +335,7 @@ def createMC(transitions: list, labelling: list, initial_state, name: str ="unkn
 	for t in transitions:
 		res[states.index(t[0])][states.index(t[1])] = t[2]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
 	if type(initial_state) == int:
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 551def5..4e4c4e1 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -585,7 +585,7 @@ def createMDP(transitions:list, labelling:list, initial_state, name: str ="unkno
 	for t in transitions:
 		res[states.index(t[0])][actions.index(t[1])][states.index(t[2])] = t[3]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros((1,nb_actions,nb_states))))
 	res = concatenate((res,zeros((nb_states+1,nb_actions,1))),axis=2)
 	if type(initial_state) == int:
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index ea728fa..e65a9bf 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -506,7 +506,8 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 		msg =  "The label 'init' cannot be used: it is reserved for initial states."
 		raise SyntaxError(msg)
 	
-	labelling.append('init')
+	labelling = labelling+['init']
+	transitions = list(transitions)
 	
 	states = [i[0] for i in transitions]+[i[1] for i in transitions]
 	states += [i[0] for i in synchronous_transitions]+[i[2] for i in synchronous_transitions]
@@ -524,7 +525,7 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	elif nb_states < len(labelling):
 		print("WARNING: the labelling list is bigger than the number of states")
 	
-	parameter_str = parameters
+	parameter_str = list(parameters)
 	parameter_values = {}
 	parameter_indexes = [[] for _ in parameter_str]
 	transition_expr = [sympify('0.0')]
-- 
2.43.0


From 85609ac58dc944366c8dfb29da1142df4bdb3c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 14/68] fix: createGoHMM builds the output matrix it is given

---
 jajapy/gohmm/GoHMM.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index 21e134a..8a35076 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -317,9 +317,11 @@ def createGoHMM(transitions:list, output:list, initial_state:str,name :str = 'un
 	matrix = zeros((nb_states,nb_states))
 	for t in transitions:
 		matrix[states.index(t[0])][states.index(t[1])] = t[2]
-	output = array((nb_states,nb_distributions,2))
+	parameters = zeros((nb_states,nb_distributions,2))
 	for s,ts in enumerate(output):
+		if len(ts) != nb_distributions:
+			raise ValueError("All state must have as much distributions")
 		for i,t in enumerate(ts):
-			output[s,i][0] = t[0]
-			output[s,i][1] = t[1]
-	return GoHMM(matrix, output,initial_state,name)
+			parameters[s,i][0] = t[0]
+			parameters[s,i][1] = t[1]
+	return GoHMM(matrix, parameters,initial_state,name)
-- 
2.43.0


From 69c5925b6175514b5fa500a6b513c9dd7bca9146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 15/68] fix: loadHMM, loadCTMC and loadGoHMM reject files of
 another model class

---
 jajapy/ctmc/CTMC.py   | 2 +-
 jajapy/gohmm/GoHMM.py | 4 ++--
 jajapy/hmm/HMM.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 0f35c0e..6e4e136 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -338,7 +338,7 @@ def loadCTMC(file_path: str) -> CTMC:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "CTMC":
-		print("ERROR: this file doesn't describe an CTMC: it describes a "+l)
+		raise ValueError("this file doesn't describe an CTMC: it describes a "+l)
 	labelling = literal_eval(f.readline()[:-1])
 	name = f.readline()[:-1]
 	initial_state = array(literal_eval(f.readline()[:-1]))
diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index 8a35076..d4f347c 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -208,7 +208,7 @@ def loadGoHMM(file_path: str) -> GoHMM:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "GoHMM":
-		print("ERROR: this file doesn't describe an GoHMM: it describes a "+l)
+		raise ValueError("this file doesn't describe an GoHMM: it describes a "+l)
 	output = literal_eval(f.readline()[:-1])
 	output = array(output)
 	name = f.readline()[:-1]
@@ -317,7 +317,7 @@ def createGoHMM(transitions:list, output:list, initial_state:str,name :str = 'un
 	matrix = zeros((nb_states,nb_states))
 	for t in transitions:
 		matrix[states.index(t[0])][states.index(t[1])] = t[2]
-	parameters = zeros((nb_states,nb_distributions,2))
+	parameters = zeros((len(output),nb_distributions,2))
 	for s,ts in enumerate(output):
 		if len(ts) != nb_distributions:
 			raise ValueError("All state must have as much distributions")
diff --git a/jajapy/hmm/HMM.py b/jajapy/hmm/HMM.py
index 2b40bff..d68ba82 100644
--- a/jajapy/hmm/HMM.py
+++ b/jajapy/hmm/HMM.py
@@ -169,7 +169,7 @@ def loadHMM(file_path: str) -> HMM:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "HMM":
-		print("ERROR: this file doesn't describe an HMM: it describes a "+l)
+		raise ValueError("this file doesn't describe an HMM: it describes a "+l)
 	alphabet = literal_eval(f.readline()[:-1])
 	output = literal_eval(f.readline()[:-1])
 	output = array(output)
-- 
2.43.0


From aa4009d0851014ad4d573f6a1ed88a6c14e7157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 16/68] fix: saving and loading CTMCs and PCTMCs keeps the
 synchronous transitions

---
 jajapy/ctmc/CTMC.py   | 8 +++++++-
 jajapy/pctmc/PCTMC.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 6e4e136..f393e31 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -298,6 +298,11 @@ class CTMC(Base_MC):
 		f = open(file_path, 'w')
 		f.write("CTMC\n")
 		super()._save(f)
+		if len(self.synchronous_transitions) > 0:
+			f = open(file_path, 'a')
+			f.write(str([(s,a,d,float(r)) for s,a,d,r in self.synchronous_transitions]))
+			f.write('\n')
+			f.close()
 	
 	def savePrism(self,file_path:str) -> None:
 		"""
@@ -344,8 +349,9 @@ def loadCTMC(file_path: str) -> CTMC:
 	initial_state = array(literal_eval(f.readline()[:-1]))
 	matrix = literal_eval(f.readline()[:-1])
 	matrix = array(matrix)
+	synchronous_transitions = literal_eval(f.readline()[:-1] or '[]')
 	f.close()
-	return CTMC(matrix, labelling, name)
+	return CTMC(matrix, labelling, name, synchronous_transitions)
 
 def CTMC_random(nb_states: int, labelling: list, min_exit_rate_time : int,
 				max_exit_rate_time: int, self_loop: bool = True,
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index e65a9bf..bca68f9 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -383,6 +383,11 @@ class PCTMC(Parametric_Model):
 		f = open(file_path, 'w')
 		f.write("PCTMC\n")
 		super()._save(f)
+		if len(self.synchronous_transitions) > 0:
+			f = open(file_path, 'a')
+			f.write(str([(s,a,d,str(r)) for s,a,d,r in self.synchronous_transitions]))
+			f.write('\n')
+			f.close()
 	
 	def savePrism(self,file_path:str) -> None:
 		"""
@@ -456,9 +461,10 @@ def loadPCTMC(file_path: str) -> PCTMC:
 		msg = "This file doesn't describe a PCTMC: it describes a "+l
 		raise ValueError(msg)
 	matrix,labelling,parameter_values,parameter_indexes,parameter_str,transition_expr,name = loadParametricModel(f)
+	synchronous_transitions = literal_eval(f.readline()[:-1] or '[]')
 	f.close()
 	return PCTMC(matrix,labelling,transition_expr,parameter_values,
-				 parameter_indexes,parameter_str,name)
+				 parameter_indexes,parameter_str,name,synchronous_transitions)
 
 def createPCTMC(transitions: list, labelling: list, parameters: list,
 				initial_state, parameter_instantiation: dict={},
-- 
2.43.0


From 54264fe32eb4356303c5096357ece73f03faa9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 17/68] fix: PCTMC.instantiate checks the rates under the new
 values

---
 jajapy/pctmc/PCTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index bca68f9..4ab6725 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -174,7 +174,7 @@ class PCTMC(Parametric_Model):
 			values = self.parameter_values
 		xs,ys = where(self.matrix != 0)
 		for x,y in zip(xs,ys):
-			v = self.evaluateTransition(x,y)
+			v = self.evaluateTransition(x,y,values)
 			if type(v) == float:
 				if v < 0.0:
 					return False
-- 
2.43.0


From 0ea5a62e6f8f3de73a0cc88f873d32a32eb4e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 18/68] fix: PCTMC.instantiate rejects unknown parameters

---
 jajapy/pctmc/PCTMC.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 4ab6725..17597d9 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -199,6 +199,10 @@ class PCTMC(Parametric_Model):
 			evaluation) and then applied, False if the instantiation is not 
 			valid (and then ignored).
 		"""
+		for p in parameters:
+			if not p in self.parameter_str:
+				print("WARNING: no parameter "+str(p)+", instantiation ignored.")
+				return False
 		new_values =  super().instantiate(parameters, values)
 		if self._checkRates(new_values):
 			self.parameter_values = new_values
-- 
2.43.0


From 1895117d67899defe86ad723e0d3acff601d8681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 19/68] fix: MDP_random returns the same deterministic MDP for
 the same seed in every process

---
 jajapy/mdp/MDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 4e4c4e1..1a77d62 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -504,7 +504,7 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 	if sseed != None:
 		seed(sseed)
 		numpy.random.seed(sseed)
-	alphabet = list(set(labelling))
+	alphabet = sorted(set(labelling))
 	matrix = []
 	for s in range(nb_states):
 		if not deterministic:
-- 
2.43.0


From 02582702e3eb368b11b3e8e645a496b14abe86cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 20/68] fix: CTMC and PCTMC runs never follow a transition of
 rate 0

---
 jajapy/ctmc/CTMC.py   | 4 +++-
 jajapy/pctmc/PCTMC.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index f393e31..d481ea3 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -176,7 +176,7 @@ class CTMC(Base_MC):
 		exps = []
 		for exp_lambda in self.matrix[state]:
 			if exp_lambda <= 0.0:
-				exps.append(1024)
+				exps.append(numpy.inf)
 			else:
 				exps.append(numpy.random.exponential(1/exp_lambda))
 		next_state= exps.index(min(exps))
@@ -206,6 +206,8 @@ class CTMC(Base_MC):
 		c = 0
 		while c < number_steps:
 			[symbol, next_state, time_spent] = self.next(current)
+			if time_spent == numpy.inf: # absorbing state
+				break
 			output.append(symbol)
 			if timed:
 				output.append(time_spent)
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 17597d9..2a5d0dd 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -318,6 +318,8 @@ class PCTMC(Parametric_Model):
 		c = 0
 		while c < number_steps:
 			[symbol, next_state, time_spent] = self.next(current)
+			if time_spent == inf: # absorbing state
+				break
 			output.append(symbol)
 			if timed:
 				output.append(time_spent)
-- 
2.43.0


From 681dbbc5c4ad6a88442471cd66d88046b2e396e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 21/68] fix: FiniteMemoryScheduler.getSequenceStates works

---
 jajapy/mdp/Scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/Scheduler.py b/jajapy/mdp/Scheduler.py
index adadd28..78377d8 100644
--- a/jajapy/mdp/Scheduler.py
+++ b/jajapy/mdp/Scheduler.py
@@ -180,7 +180,7 @@ class FiniteMemoryScheduler:
 		self.reset()
 		res = [0]
 		for o in seq_obs:
-			self.add_observation(o)
+			self.addObservation(o)
 			res.append(self.s)
 		return res
 
-- 
2.43.0


From ae17647e40531355d2c2e2f7ca40119f89767a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 22/68] fix: MDP runs work under a MemorylessScheduler

---
 jajapy/mdp/MDP.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 1a77d62..f475bf5 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -2,7 +2,7 @@ from ..base.tools import resolveRandom, randomProbabilities, checkProbabilities
 from math import log
 from ..base.Base_MC import *
 from ..base.Set import Set
-from .Scheduler import Scheduler
+from .Scheduler import Scheduler, MemorylessScheduler
 import numpy.random
 from numpy import array, append, dot, zeros, vsplit, reshape, vstack, append, concatenate
 from ast import literal_eval
@@ -205,7 +205,12 @@ class MDP(Base_MC):
 		scheduler.reset()
 		current_len = 0
 		while current_len < number_steps:
-			action = scheduler.getAction()
+			if isinstance(scheduler,MemorylessScheduler):
+				action = scheduler.getAction(current)
+				if action not in self.getActions(current):
+					raise ValueError("action "+str(action)+" is not available in state "+str(current))
+			else:
+				action = scheduler.getAction()
 
 			while action not in self.getActions(current):
 				action = scheduler.getAction()
-- 
2.43.0


From ba4a2b85244fa63aedd9357de69527ef662f9ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 23/68] fix: resolveRandom accepts distributions that sum to 1
 up to rounding

---
 jajapy/base/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/tools.py b/jajapy/base/tools.py
index 9ea2ab4..6eaea40 100644
--- a/jajapy/base/tools.py
+++ b/jajapy/base/tools.py
@@ -56,7 +56,7 @@ def resolveRandom(m: list) -> int:
 	"""
 	m = array(m).cumsum()
 	mi = nonzero(m)[0]
-	r = random()
+	r = random()*m[-1]
 	i = 0
 	while r > m[mi[i]]:
 		i += 1
-- 
2.43.0


From feb886dc39278f680f7568004478309adc15fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 24/68] fix: Alergia compares the successors of every label of
 the training set

---
 jajapy/mc/Alergia.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 0f915c3..792dbce 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -67,6 +67,8 @@ class PTA:
 		n = start
 		for i in range(start_index,len(string)):
 			l = string[i]
+			if not l in self.alphabet:
+				self.alphabet.append(l)
 			n.addKid(PTA_node(l,n),count)
 			n = n.kids[-1][0]
 		return n
-- 
2.43.0


From 754f04e6d5ac978459d5dae08fbc0c0f4946fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 25/68] fix: Alergia keeps the multiplicity of every trace and
 leaves the training set as it was

---
 jajapy/mc/Alergia.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 792dbce..36fd3e9 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -241,10 +241,5 @@ class Alergia:
 		self.createPTA(traces)
 
 	def createPTA(self,traces):
-		temp1 = traces.sequences[:]
-		temp2 = traces.times[:]
-		traces.sequences.sort()
-		traces.times = [temp2[temp1.index(i)] for i in traces.sequences]
-		self.T = PTA(traces)
-		
-		
+		# PTA sorts the set it is given: it works on a copy
+		self.T = PTA(Set(traces.sequences[:],list(traces.times),traces.type))
-- 
2.43.0


From 9b08c502ee4d7851eab2c78322e39b2233ed8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 26/68] fix: Alergia and IOAlergia can write their model to a
 Prism file

---
 jajapy/mc/Alergia.py    | 2 +-
 jajapy/mdp/IOAlergia.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 36fd3e9..8ec7263 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -217,7 +217,7 @@ class Alergia:
 			stormpy_output = False
 		
 		if output_file_prism:
-			self.h.savePrism(output_file_prism)
+			m.savePrism(output_file_prism)
 
 		if stormpy_output:
 			return jajapyModeltoStormpy(m)
diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index d26bec4..2f03f1e 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -553,7 +553,7 @@ class IOAlergia:
 
 
 		if output_file_prism:
-			self.h.savePrism(output_file_prism)
+			m.savePrism(output_file_prism)
 		
 		if stormpy_output:
 			return jajapyModeltoStormpy(m)
-- 
2.43.0


From f46cc89da0e559d2c4cc642341082be8c4960bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 27/68] fix: IOAlergia gives every distribution to the action
 it was learned for

---
 jajapy/mdp/IOAlergia.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 2f03f1e..d8ec552 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -407,7 +407,9 @@ class IOFPTA:
 		transitions = zeros((len(states)+1,len(actions),len(states)+1))
 		
 		for si,s in enumerate([self.states[i] for i in states]):
-			for ai,a in enumerate([a for a in actions if s.actionAllowed(a)]):
+			for ai,a in enumerate(actions):
+				if not s.actionAllowed(a):
+					continue
 				tot = sum(s.transitions[a][0])
 				for p,s2 in zip(s.transitions[a][0],s.transitions[a][1]):
 					transitions[si][ai][states.index(s2)] = p/tot
-- 
2.43.0


From b60982d3fbf9b0738f2c633fb67016ddd62f826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 28/68] fix: IOAlergia does not add a second initial state

---
 jajapy/mdp/IOAlergia.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index d8ec552..80dedea 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -403,8 +403,11 @@ class IOFPTA:
 
 		actions = self.actions
 		states = red
-		labelling = [self.states[i].observation for i in states]+['init']
-		transitions = zeros((len(states)+1,len(actions),len(states)+1))
+		labelling = [self.states[i].observation for i in states]
+		add_init = labelling[0] != 'init'
+		if add_init:
+			labelling.append('init')
+		transitions = zeros((len(labelling),len(actions),len(labelling)))
 		
 		for si,s in enumerate([self.states[i] for i in states]):
 			for ai,a in enumerate(actions):
@@ -413,7 +416,8 @@ class IOFPTA:
 				tot = sum(s.transitions[a][0])
 				for p,s2 in zip(s.transitions[a][0],s.transitions[a][1]):
 					transitions[si][ai][states.index(s2)] = p/tot
-		transitions[-1][0][0] = 1.0
+		if add_init:
+			transitions[-1][0][0] = 1.0
 		return MDP(transitions, labelling, actions)
 
 
-- 
2.43.0


From c6d1e50fd31487be7efc64500eec734af1482637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 29/68] fix: IOAlergia adds up the frequencies of merged states

---
 jajapy/mdp/IOAlergia.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 80dedea..2d13c2d 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -99,6 +99,21 @@ class IOFPTA_state:
 			self.transitions[action][0].append(prob)
 			self.transitions[action][1].append(state)
 
+	def transitionProbAdd(self, action: str, state: int, prob: float) -> None:
+		"""
+		Increases the weight of an existing transition.
+
+		Parameters
+		----------
+		action : str
+			An action.
+		state : int
+			A state ID (the destination state).
+		prob : float
+			The weight to add.
+		"""
+		self.transitions[action][0][self.transitions[action][1].index(state)] += prob
+
 	def transitionChange(self, action: str, old_state: int, new_state: int) -> None:
 		"""
 		Change the destination state of a given transition.
@@ -346,8 +361,8 @@ class IOFPTA:
 				if succ2 != None:
 					succ1 = self.successor(s1,a,o)
 					if succ1 != None:
+						self.states[s1].transitionProbAdd(a,succ1,self.states[s2].getTransitionProb(a,succ2))
 						self.merge(succ1,succ2)
-						#self.states[s1].transition_prob_add(a,succ1,self.states[s2].getTransitionProb(a,succ2))
 						#self.states[succ1].counterAdd(self.states[succ2].counter)
 						#self.states[succ2].counter = 0 #useless but meaningfull
 					else:
-- 
2.43.0


From ccdb7ec30361f38a9064e18b32e49588d75075c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 30/68] fix: Storm CTMCs get the rates as transition matrix,
 not the jump probabilities

---
 jajapy/with_stormpy/model_converter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index ac7a3b4..20d176f 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -107,8 +107,6 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 						t_expr.append(t_val)
 					else:
 						matrix[c][dest] = t_expr.index(t_val)
-		if ty == 1 and not from_prism:
-			matrix[c] *= h.exit_rates[si]
 	
 	if add_init_state != None:
 		#matrix = vstack((matrix,matrix[add_init_state]))
@@ -251,10 +249,9 @@ def CTMCtoStormpy(h):
 		The same model in stormpy format.
 	"""
 	state_labelling = _buildStateLabeling(h)
-	transition_matrix = deepcopy(h.matrix)
+	# the matrix of a stormpy.SparseCtmc contains the rates
 	e = array([h.e(s) for s in range(h.nb_states)])
-	transition_matrix /= e[:,newaxis]
-	transition_matrix =  st.build_sparse_matrix(transition_matrix)
+	transition_matrix =  st.build_sparse_matrix(h.matrix)
 	components = st.SparseModelComponents(transition_matrix=transition_matrix,
 										  state_labeling=state_labelling,
 										  rate_transitions=True)
-- 
2.43.0


From 18b382ab051a219c937435a9511fac8e05cae98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 31/68] fix: loadPrism does not add self-loops to absorbing
 states

---
 jajapy/with_stormpy/model_converter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index 20d176f..7056b6d 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -67,7 +67,8 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 	for si,s in enumerate(h.states):
 		c = si
 		temp = list(s.labels)
-		if "deadlock" in temp:
+		deadlock = "deadlock" in temp
+		if deadlock:
 			temp.remove("deadlock")
 		temp.sort()
 		if len(temp) == 0:
@@ -80,6 +81,10 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 		else:
 			labelling[si] = '_'.join(list(temp))
 
+		if from_prism and deadlock:
+			# no command is enabled in this state: Storm added a self-loop
+			continue
+
 		for a in s.actions:
 			for t in a.transitions:
 				dest = t.column
-- 
2.43.0


From f41a3f9561f930a291776e1b3e1069e39d9d3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 32/68] fix: MDP conversions to and from Storm keep the
 available actions and their names

---
 jajapy/with_stormpy/model_converter.py | 50 ++++++++++++++++----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index 7056b6d..732218a 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -45,14 +45,19 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 	
 	labelling = [None for _ in range(len(h.states))]
 	if ty == 2:
-		actions = []
-		for s in h.states:
-			for a in s.actions:
-				if len(actions_name) <= int(str(a)):
-					actions.append('a'+str(a))
-				else:
-					actions.append(actions_name[int(str(a))])
-		actions = list(set(actions))
+		# the actions are identified by the choice labels if there are any,
+		# otherwise by their positions
+		choice_action = [['a'+str(i) for i in range(len(s.actions))] for s in h.states]
+		actions = max(choice_action,key=len)
+		if h.has_choice_labeling():
+			labels = [[list(h.choice_labeling.get_labels_of_choice(h.get_choice_index(s.id,a.id))) for a in s.actions] for s in h.states]
+			if all(len(l) == 1 for c in labels for l in c) and all(len(set(l[0] for l in c)) == len(c) for c in labels):
+				choice_action = [[l[0] for l in c] for c in labels]
+				actions = sorted(set(l for c in choice_action for l in c))
+				if set(actions) <= set(actions_name):
+					actions = list(actions_name)
+		choice_action = [[actions.index(a) for a in c] for c in choice_action]
+		actions = list(actions_name[:len(actions)])+actions[len(actions_name):]
 		matrix = zeros((len(h.states),len(actions),len(h.states)))
 	elif ty == 0 or ty == 1:
 		matrix = zeros((len(h.states),len(h.states)))
@@ -90,7 +95,7 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 				dest = t.column
 				t_val = t.value()
 				if ty == 2:
-					matrix[c][int(str(a))][dest] = t_val
+					matrix[c][choice_action[si][a.id]][dest] = t_val
 				elif ty == 1 or ty == 0:
 					matrix[c][dest] = t_val
 				else:
@@ -197,16 +202,23 @@ def MDPtoStormpy(h):
 		The same model in stormpy format.
 	"""
 	state_labelling = _buildStateLabeling(h)
-	nb_actions = len(h.getActions())
-	transition_matrix = h.matrix
-	transition_matrix = reshape(transition_matrix.flatten(),(h.nb_states*nb_actions,h.nb_states))
-	transition_matrix =  st.build_sparse_matrix(transition_matrix,[nb_actions*i for i in range(h.nb_states)])
-	choice_labelling = st.storage.ChoiceLabeling(h.nb_states*nb_actions)
-	for ia,a in enumerate(h.getActions()):
+	rows = []
+	row_groups = []
+	choices = []
+	for s in range(h.nb_states):
+		row_groups.append(len(rows))
+		available = [ai for ai in range(len(h.actions)) if (h.matrix[s][ai] != 0.0).any()]
+		for ai in available or [0]:
+			rows.append(h.matrix[s][ai])
+			choices.append(h.actions[ai])
+	transition_matrix = st.build_sparse_matrix(array(rows),row_groups)
+	choice_labelling = st.storage.ChoiceLabeling(len(choices))
+	for a in set(choices):
 		choice_labelling.add_label(a)
-		choice_labelling.add_label_to_choice(a,ia)
+	for c,a in enumerate(choices):
+		choice_labelling.add_label_to_choice(a,c)
 	reward_models = {}
-	action_reward = [-1.0 for _ in range(len(transition_matrix))]
+	action_reward = [-1.0 for _ in choices]
 	reward_models["nb_executed_actions"] = st.SparseRewardModel(optional_state_action_reward_vector = action_reward)
 	components = st.SparseModelComponents(transition_matrix=transition_matrix,
 										  state_labeling=state_labelling,
@@ -315,7 +327,9 @@ def loadPrism(path: str):
 	except RuntimeError:
 		prism_program = st.parse_prism_program(path,True)
 	try:
-		stormpy_model = st.build_model(prism_program)
+		options = st.BuilderOptions(True,True)
+		options.set_build_choice_labels(prism_program.model_type == st.PrismModelType.MDP)
+		stormpy_model = st.build_sparse_model_with_options(prism_program,options)
 	except RuntimeError:
 		stormpy_model = st.build_parametric_model(prism_program)
 
-- 
2.43.0


From 13ac5e930420aea5392f2720f3146feba4491df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 33/68] fix: savePrism handles models with several initial
 states

---
 jajapy/base/Base_MC.py |  3 ++-
 jajapy/base/Model.py   | 14 +++++++++++++-
 jajapy/pctmc/PCTMC.py  |  3 ++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index a2a8ca3..8888b37 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -101,9 +101,10 @@ class Base_MC(Model):
 
 	def _savePrism(self,f) -> None:
 		f.write("module "+self.name+'\n')
-		f.write("\ts: [0.."+str(self.nb_states-1)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
+		f.write("\ts: [0.."+str(self.nb_states-1)+"]"+self._prismInit()+";\n\n")
 		self._savePrismMatrix(f)
 		f.write('endmodule\n\n')
+		f.write(self._prismInits())
 
 		labels = {}
 		for s,l in enumerate(self.labelling):
diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index e1a6193..d3c5811 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -388,4 +388,16 @@ class Model:
 		elif s < 0:
 			raise IndexError('The parameter must be a valid state ID')
 		elif s >= self.nb_states:
-			raise IndexError('This model contains only '+str(self.nb_states)+' states')
\ No newline at end of file
+			raise IndexError('This model contains only '+str(self.nb_states)+' states')
+
+	def _prismInit(self) -> str:
+		# initial value of the state variable
+		initial = where(self.initial_state > 0.0)[0]
+		return " init "+str(initial[0]) if len(initial) == 1 else ""
+
+	def _prismInits(self) -> str:
+		# set of initial states, if there are several
+		initial = where(self.initial_state > 0.0)[0]
+		if len(initial) == 1:
+			return ""
+		return "init "+" | ".join(["s="+str(s) for s in initial])+" endinit\n\n"
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 2a5d0dd..4d8e8e7 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -414,7 +414,7 @@ class PCTMC(Parametric_Model):
 			f.write(';\n')
 
 		f.write("\nmodule "+self.name+'\n')
-		f.write("\ts: [0.."+str(self.nb_states)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
+		f.write("\ts: [0.."+str(self.nb_states)+"]"+self._prismInit()+";\n\n")
 		
 		for s1 in range(self.nb_states):
 			if (self.matrix[s1]!=0).any():
@@ -426,6 +426,7 @@ class PCTMC(Parametric_Model):
 				res = res[:-2]+';\n'
 				f.write(res)
 		f.write('endmodule\n\n')
+		f.write(self._prismInits())
 
 		labels = {}
 		for s,l in enumerate(self.labelling):
-- 
2.43.0


From 503bae012bf6b1ea117613d91869eef83ee98248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 34/68] fix: loadPrism keeps the action names of MDPs with
 deadlock states

---
 jajapy/with_stormpy/model_converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index 732218a..4e0761a 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -47,10 +47,12 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 	if ty == 2:
 		# the actions are identified by the choice labels if there are any,
 		# otherwise by their positions
-		choice_action = [['a'+str(i) for i in range(len(s.actions))] for s in h.states]
+		# (the self-loop that Storm adds to the deadlock states is not an action)
+		choices = [[] if from_prism and "deadlock" in s.labels else list(s.actions) for s in h.states]
+		choice_action = [['a'+str(i) for i in range(len(c))] for c in choices]
 		actions = max(choice_action,key=len)
 		if h.has_choice_labeling():
-			labels = [[list(h.choice_labeling.get_labels_of_choice(h.get_choice_index(s.id,a.id))) for a in s.actions] for s in h.states]
+			labels = [[list(h.choice_labeling.get_labels_of_choice(h.get_choice_index(s.id,a.id))) for a in choices[s.id]] for s in h.states]
 			if all(len(l) == 1 for c in labels for l in c) and all(len(set(l[0] for l in c)) == len(c) for c in labels):
 				choice_action = [[l[0] for l in c] for c in labels]
 				actions = sorted(set(l for c in choice_action for l in c))
-- 
2.43.0


From 149a626cc38fec911f8694e30703b5b5d8b222a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 35/68] fix: models do not share their default list of
 synchronous transitions

---
 jajapy/ctmc/CTMC.py   | 2 +-
 jajapy/pctmc/PCTMC.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index d481ea3..37f05b0 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -43,7 +43,7 @@ class CTMC(Base_MC):
 			Default is an empty list.
 		"""
 		self.model_type = CTMC_ID
-		self.synchronous_transitions = synchronous_transitions
+		self.synchronous_transitions = list(synchronous_transitions)
 
 		super().__init__(matrix,labelling,name)
 		for s in range(self.nb_states):
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 4d8e8e7..34a7275 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -52,7 +52,7 @@ class PCTMC(Parametric_Model):
 			Default is an empty list.
 		"""
 		self.model_type = PCTMC_ID
-		self.synchronous_transitions = synchronous_transitions
+		self.synchronous_transitions = list(synchronous_transitions)
 		super().__init__(matrix,labelling,transition_expr,parameter_values,parameter_indexes,parameter_str,name)
 
 	def e(self,s: int) -> float:
-- 
2.43.0


From d93955d6410825fda4fe6a83a5c0adf3424b2859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 36/68] fix: CTMC composition handles any position of the
 initial states, double self-loops and large products

---
 jajapy/ctmc/CTMC.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 37f05b0..166a61d 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -534,10 +534,10 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	m1_nb_states = m1.nb_states - len(m1_init)
 	m2_nb_states = m2.nb_states - len(m2_init)
 	nb_states = m1_nb_states * m2_nb_states	
-	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
-	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
+	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
+	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
-	matrix= zeros((nb_states,nb_states),dtype='uint8')
+	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
 	p_v = {}
 	p_str = []
@@ -589,7 +589,7 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 			for j in m2_sids:
 				if m2.matrix[j,j] != 0.0:
 					matrix[get_state_index(i,j),get_state_index(i,j)] = len(t_e)
-					t_e.append(sympify("p"+str(i)+'_'+str(i)+'+q'+str(j)+'_'+str(j)))
+					t_e.append(sympify("p_"+str(i)+'_'+str(i)+'+q_'+str(j)+'_'+str(j)))
 
 	for si,ai,di,pi in m1.synchronous_transitions: # synchronous transitions
 		for sj,aj,dj,pj in m2.synchronous_transitions:
@@ -598,8 +598,8 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 				matrix[get_state_index(si,sj),get_state_index(di,dj)] = len(t_e)-1
 	
 	labelling.append('init')
-	matrix = vstack((matrix,zeros(nb_states,dtype='uint8')))
-	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint8')[:,newaxis]))
+	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
+	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint16')[:,newaxis]))
 	m1_init_trans = zeros(m1_nb_states)
 	for i in m1_init:
 		tmp = [m1.matrix[i][j] for j in m1_sids]
@@ -629,12 +629,12 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	for i,si in enumerate(m1_init_trans):
 		for j,sj in enumerate(m2_init_trans):
 			if si*sj <= 0.0:
-				matrix[-1][get_state_index(i,j)] = 0
+				matrix[-1][i*m2_nb_states+j] = 0
 			else:
-				matrix[-1][get_state_index(i,j)] = len(t_e)
+				matrix[-1][i*m2_nb_states+j] = len(t_e)
 				t_e.append(sympify('initp_'+str(i)+'*initq_'+str(j)))
-				p_i[p_str.index('initp_'+str(i))].append([len(matrix)-1,get_state_index(i,j)])
-				p_i[p_str.index('initq_'+str(j))].append([len(matrix)-1,get_state_index(i,j)])
+				p_i[p_str.index('initp_'+str(i))].append([len(matrix)-1,i*m2_nb_states+j])
+				p_i[p_str.index('initq_'+str(j))].append([len(matrix)-1,i*m2_nb_states+j])
 	
 	i = 0
 	while i < len(matrix): # removing unreachable states
-- 
2.43.0


From c5fe3ddb155c36fe69a788fc35907a5caa3f8928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 37/68] fix: CTMC composition keeps the actions that only one
 component knows (Prism formalism)

---
 jajapy/ctmc/CTMC.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 166a61d..6f4bfec 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -591,11 +591,24 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 					matrix[get_state_index(i,j),get_state_index(i,j)] = len(t_e)
 					t_e.append(sympify("p_"+str(i)+'_'+str(i)+'+q_'+str(j)+'_'+str(j)))
 
+	def add_sync_transition(s1,s2,d1,d2,rate):
+		x,y = get_state_index(s1,s2),get_state_index(d1,d2)
+		t_e.append(t_e[matrix[x,y]]+sympify(rate))
+		matrix[x,y] = len(t_e)-1
+
+	m1_actions = [a for _,a,_,_ in m1.synchronous_transitions]
+	m2_actions = [a for _,a,_,_ in m2.synchronous_transitions]
 	for si,ai,di,pi in m1.synchronous_transitions: # synchronous transitions
 		for sj,aj,dj,pj in m2.synchronous_transitions:
 			if ai == aj:
-				t_e.append(t_e[matrix[get_state_index(si,sj),get_state_index(di,dj)]]+sympify(pi*pj))
-				matrix[get_state_index(si,sj),get_state_index(di,dj)] = len(t_e)-1
+				add_sync_transition(si,sj,di,dj,pi*pj)
+		if not ai in m2_actions: # only m1 knows this action
+			for sj in m2_sids:
+				add_sync_transition(si,sj,di,sj,pi)
+	for sj,aj,dj,pj in m2.synchronous_transitions:
+		if not aj in m1_actions: # only m2 knows this action
+			for si in m1_sids:
+				add_sync_transition(si,sj,si,dj,pj)
 	
 	labelling.append('init')
 	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
-- 
2.43.0


From ea59eef49f628413652ee240ca582bb55aae0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 38/68] fix: PCTMC composition handles any position of the
 initial states

---
 jajapy/pctmc/PCTMC.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 34a7275..651f897 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -658,8 +658,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	m1_nb_states = m1.nb_states - len(m1_init)
 	m2_nb_states = m2.nb_states - len(m2_init)
 	nb_states = m1_nb_states * m2_nb_states	
-	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
-	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
+	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
+	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
@@ -760,9 +760,9 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	for i,si in enumerate(m1_init_trans):
 		for j,sj in enumerate(m2_init_trans):
 			if si*sj == 0.0:
-				matrix[-1][get_state_index(i,j)] = 0
+				matrix[-1][i*m2_nb_states+j] = 0
 			else:
-				matrix[-1][get_state_index(i,j)] = len(trans_expr)
+				matrix[-1][i*m2_nb_states+j] = len(trans_expr)
 				trans_expr.append(sympify(str(si*sj)))
 
 	return PCTMC(matrix,labelling,trans_expr,p_v,p_i,p_str,name), sync_trans
-- 
2.43.0


From bfd103f44d718c21de2e3a83ba0a8014d9b974a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 39/68] fix: PCTMC composition keeps the self-loops of the
 components

---
 jajapy/pctmc/PCTMC.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 651f897..8d4d2c7 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -718,10 +718,12 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 			labelling.append(m1.labelling[s1]+','+m2.labelling[s2])
 	for i in m1_sids: # m1 transitions
 		for j in m1_sids:
-			add_transition(i,j,1)
+			if m1.matrix[i,j] != 0:
+				add_transition(i,j,1)
 	for i in m2_sids: # m2 transitions
 		for j in m2_sids:
-			add_transition(i,j,2)
+			if m2.matrix[i,j] != 0:
+				add_transition(i,j,2)
 	for i in m1_sids: # self loops
 		if m1.matrix[i,i] != 0:
 			for j in m2_sids:
-- 
2.43.0


From 4c57b733cbafc34e8ff7e0eff40bc27f94dbad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 40/68] fix: PCTMC composition keeps the parameters of every
 component and of the synchronous transitions

---
 jajapy/pctmc/PCTMC.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 8d4d2c7..9316186 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -632,7 +632,9 @@ def synchronousCompositionPCTMCs(ms: list, name: str = "unknown_composition") ->
 			m1.transition_expr.append(expr)
 		m1.matrix[i,d] = m1.transition_expr.index(expr)
 		for p in expr.free_symbols:
-			m1.parameter_indexes[m1.parameter_str.index(p)].append([i,d])
+			indexes = m1.parameter_indexes[m1.parameter_str.index(p.name)]
+			if not [i,d] in indexes:
+				indexes.append([i,d])
 	removeUnreachableState(m1)
 	removeUnusedTrans(m1)
 	return m1
@@ -663,8 +665,11 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
-	p_v = m1.parameter_values #TODO m2.parameter_values
-	p_str = list(set(m1.parameter_str+m2.parameter_str))
+	p_v = dict(m1.parameter_values)
+	for p,v in m2.parameter_values.items():
+		if not p in p_v or isnan(p_v[p]):
+			p_v[p] = v
+	p_str = m1.parameter_str+[p for p in m2.parameter_str if not p in m1.parameter_str]
 	p_i = [[] for _ in p_str]
 	trans_expr = [sympify('0.0')]
 
@@ -679,13 +684,15 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 				x,y = get_state_index(s1,i),get_state_index(s2,i)
 				matrix[x,y] = trans
 				for ind in add_index:
-					p_i[ind].append([x,y])
+					if not [x,y] in p_i[ind]:
+						p_i[ind].append([x,y])
 		elif model == 2:
 			for i in m1_sids:
 				x,y = get_state_index(i,s1),get_state_index(i,s2)
 				matrix[x,y] = trans
 				for ind in add_index:
-					p_i[ind].append([x,y])
+					if not [x,y] in p_i[ind]:
+						p_i[ind].append([x,y])
 	
 	def add_transition(i,j,model):
 		if model == 1:
@@ -707,8 +714,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 		expr2 = sympify(expr2)
 		expr = expr1*expr2
 		for p in expr.free_symbols:
-			if not p in p_str:
-				p_str.append(p)
+			if not p.name in p_str:
+				p_str.append(p.name)
 				p_i.append([])
 		x, y = get_state_index(s1,s2), get_state_index(d1, d2)
 		return [x,a,y,expr]
-- 
2.43.0


From 2211d3b067c47091f17a4977415ffd4f8c4e4da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 41/68] fix: PCTMC composition keeps the actions that only some
 components know (Prism formalism)

---
 jajapy/pctmc/PCTMC.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 9316186..3d58e8a 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -740,13 +740,22 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 						trans_expr.append(expr)
 					matrix[get_state_index(i,j),get_state_index(i,j)] = trans_expr.index(expr)
 	sync_trans = []
+	m1_actions = [a for _,a,_,_ in m1.synchronous_transitions]
+	m2_actions = [a for _,a,_,_ in m2.synchronous_transitions]
 	for sync_1 in m1.synchronous_transitions: # synchronous transitions
 		si,ai,di,pi = sync_1
 		for sync_2 in m2.synchronous_transitions:
 			sj,aj,dj,pj = sync_2
 			if ai == aj:
 				sync_trans.append(add_sync_transition(ai,si,di,pi,sj,dj,pj))
-				
+		if not ai in m2_actions: # only m1 knows this action
+			for sj in m2_sids:
+				sync_trans.append(add_sync_transition(ai,si,di,pi,sj,sj,1))
+	for sj,aj,dj,pj in m2.synchronous_transitions:
+		if not aj in m1_actions: # only m2 knows this action
+			for si in m1_sids:
+				sync_trans.append(add_sync_transition(aj,si,si,1,sj,dj,pj))
+
 	labelling.append('init')
 	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
 	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint16')[:,newaxis]))
-- 
2.43.0


From 9a18368f7603b6f80f23948eb9ca7cff6769bf73 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 42/68] fix: PCTMC learning works without fixed parameters

---
 jajapy/base/BW.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 91ac832..877fe32 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -252,6 +252,8 @@ class BW:
 			self._h_e = self._h_e_PCTMC
 			self._h_l = self._h_l_PCTMC
 			self._h_tau=self._h_tau_PCTMC
+			if type(fixed_parameters) == bool:
+				fixed_parameters = []
 			self._sortParameters(fixed_parameters)
 
 		elif self.type_model == HMM_ID:
-- 
2.43.0


From 18a4dba77a62dd688361693455b74db5121e55a7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 43/68] fix: PCTMC learning from timed traces computes one
 forward value per observation

---
 jajapy/base/BW.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 877fe32..dab549b 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -569,10 +569,11 @@ class BW:
 
 		pi = self.h.initial_state
 
-		alpha = empty((n_obs + 1, self.nb_states))
+		alpha = empty((n_obs, self.nb_states))
 		alpha[0] = pi
-		for t in range(1, n_obs + 1):
+		for t in range(1, n_obs):
 			alpha[t] = tau.T @ (phi[t - 1] * alpha[t - 1])
+		alpha[-1] *= phi[-1]
 
 		return alpha.T
 
-- 
2.43.0


From e148020fc3a5e4c4a82ccae85a4699954ed230ac Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 44/68] fix: PCTMC learning accepts untimed traces

---
 jajapy/base/BW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index dab549b..b4fecb6 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1493,7 +1493,7 @@ class BW:
 			self.type_model = CTMC_ID
 			self.h = CTMC_random(nb_states,self.alphabet,min_exit_rate_time,max_exit_rate_time,self_loop,random_initial_state)
 
-	def _computeAlphas_matrix(self, sequence: list[str]) -> array:
+	def _computeAlphas_matrix(self, sequence: list[str], times_seq: list[float] = None) -> array:
 		"""
 		Compute the alpha values for ``sequence`` under the current BW
 		hypothesis using a matrix representation.
@@ -1566,7 +1566,7 @@ class BW:
 				alpha_matrix[k+1,s] = dot(alpha_matrix[k],p)
 		return alpha_matrix.T
 
-	def _computeBetas_matrix(self, sequence: list[str]) -> array:
+	def _computeBetas_matrix(self, sequence: list[str], times_seq: list[float] = None) -> array:
 		"""
 		Compute the beta values for ``sequence`` under the current BW
 		hypothesis using a matrix representation.
-- 
2.43.0


From f14cecb56aebc431a26ae3971cd8e5162daa7bf7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 45/68] fix: PCTMC learning from untimed traces does not stay
 in absorbing states

---
 jajapy/base/BW.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index b4fecb6..c014c2c 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1523,7 +1523,9 @@ class BW:
 		phi = zeros(shape=(n_obs, self.nb_states))  # also called omega
 		for i in range(n_obs):
 			for j in range(self.nb_states):
-				phi[i, j] = (1 if self.h.labelling[j] == sequence[i] else 0)
+				# a state without outgoing rate can only be the last one
+				if self.h.labelling[j] == sequence[i] and (i == n_obs-1 or self._h_e(j) != 0):
+					phi[i, j] = 1
 
 		pi = self.h.initial_state
 
@@ -1599,7 +1601,9 @@ class BW:
 		phi = zeros(shape=(n_obs, self.nb_states))  # also called omega
 		for i in range(n_obs):
 			for j in range(self.nb_states):
-				phi[i, j] = (1 if self.h.labelling[j] == sequence[i] else 0)
+				# a state without outgoing rate can only be the last one
+				if self.h.labelling[j] == sequence[i] and (i == n_obs-1 or self._h_e(j) != 0):
+					phi[i, j] = 1
 
 		beta = empty((n_obs + 1, self.nb_states))
 		beta[-1] = 1
-- 
2.43.0


From c275b70cddbdf71747d18aaa7ec37f9b47260182 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 46/68] fix: PCTMC learning accepts parameters that no
 transition uses

---
 jajapy/base/BW.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index c014c2c..6409098 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -884,6 +884,8 @@ class BW:
 		self.parameters_cat = [[],[],[]]
 		for ip,p in enumerate(self.h.parameter_str):
 			if not p in fixed_parameters:
+				if len(self.h.parameterIndexes(p)) == 0: # used by no transition
+					continue
 				apis = [self.a_pis[x,y,ip] for x,y in self.h.parameterIndexes(p)]
 				cs = [self._C(x,y) for x,y in self.h.parameterIndexes(p)]
 				if min(apis) == 1 and max(apis) == 1 and min(cs) == 1 and max(cs) == 1:
-- 
2.43.0


From 1d296e8590f4e72573bcf461b50a5b8ee0da4e5d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 47/68] fix: PCTMC learning handles powers of fixed parameters

---
 jajapy/base/BW.py | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 6409098..5de34bb 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -961,28 +961,8 @@ class BW:
 			`s1` to `s2`.
 		"""
 		#used only if p is the only non-fixed parameter
-		t = self.h.transitionExpression(s1,s2)
-		while not t.is_Mul and not t.is_Symbol:
-			flag = False
-			for a in t.args:
-				if p in [x.name for x in a.free_symbols]:
-					t = a
-					flag = True
-					break
-			if not flag:
-				print(p,'not in transition',s1,s2)
-				input()
-		if t.is_Mul:
-			res = 1.0
-			for a in t.args:
-				if a.is_Symbol:
-					if not a.name == p:
-						res *= self.h.parameterValue(a.name)
-				else:
-					res *= a
-			return float(res)
-		else:
-			return 1
+		t = self.h.transitionExpression(s1,s2).subs(p,1.0)
+		return float(t.evalf(subs=self.h.parameter_values))
 
 	def _C(self,s1:int ,s2:int) -> int:
 		"""
-- 
2.43.0


From 4bfeed327013e2a52b627ccf16d10932d019f9a7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 48/68] fix: PCTMC learning from untimed traces estimates
 constants as rates, like the parameters

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 5de34bb..38a1464 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1076,7 +1076,7 @@ class BW:
 						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
 					else:
 						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
-						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/proba_seq).sum()
+						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/(self._h_e(s)*proba_seq)).sum()
 					num_cste[itrans+1] = dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 
 		else:
-- 
2.43.0


From b5d73d00567df1ecee9da6862bc91ccc39b056dd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 49/68] fix: PCTMC learning chooses the positive root, and
 keeps the value of parameters that are never used

---
 jajapy/base/BW.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 38a1464..055e659 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1177,7 +1177,10 @@ class BW:
 
 		for p in range(len(terms_cat3[0])):
 			temp = array([i[p] for i in terms_cat3], dtype=float).sum(axis=0)
-			values.append(max(polyroots(temp)))
+			if (temp[1:] == 0.0).all(): # never used
+				values.append(self.h.parameter_values[self.parameters_cat[2][p]])
+			else: # the only non-negative root is the one with the smallest modulus
+				values.append(min(abs(polyroots(temp))))
 
 		self.h.instantiate(parameters,values)
 		return currentloglikelihood
-- 
2.43.0


From a4b3886031d8f42417b63b95a746e1870876d3e3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 50/68] fix: PCTMC learning updates constant transitions
 separately

---
 jajapy/base/BW.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 055e659..fb13501 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -249,6 +249,8 @@ class BW:
 				self._computeBetas  = self._computeBetas_timed_matrix
 			self.nb_parameters = self.h.nb_parameters
 			self.update_constant = update_constant
+			if update_constant:
+				self._separateConstants()
 			self._h_e = self._h_e_PCTMC
 			self._h_l = self._h_l_PCTMC
 			self._h_tau=self._h_tau_PCTMC
@@ -864,6 +866,19 @@ class BW:
 
 
 	# PCTMC--------------------------------------------------------------------
+	def _separateConstants(self):
+		# each constant transition is updated on its own
+		used = []
+		for s in range(self.h.nb_states):
+			for ss in range(self.h.nb_states):
+				i = self.h.matrix[s,ss]
+				if i != 0 and self.h.transition_expr[i].is_real:
+					if i in used:
+						self.h.transition_expr.append(self.h.transition_expr[i])
+						self.h.matrix[s,ss] = len(self.h.transition_expr)-1
+					else:
+						used.append(i)
+
 	def _sortParameters(self,fixed_parameters: list):
 		"""
 		Sort the parameters into the three categories.
@@ -1070,6 +1085,8 @@ class BW:
 			for itrans,trans in enumerate(self.h.transition_expr[1:]):
 				if trans.is_real:
 					s,ss = where(self.h.matrix == itrans+1)
+					if len(s) == 0: # not used
+						continue
 					s,ss = s[0],ss[0]
 					if timed:
 						p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
-- 
2.43.0


From a9c2b031452ab06955c90ab3dc4bb863bd5f481e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 51/68] fix: fit_parameters sets the verbosity and the number
 of processes

---
 jajapy/base/BW.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index fb13501..b8adb43 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1328,6 +1328,8 @@ class BW:
 		self.type_model = PCTMC_ID
 		if initial_model.model_type != PCTMC_ID:
 			raise RuntimeError("The initial model must be a PCTMC")
+		self.verbose = 2 if verbose else 0
+		self.processes = 1 if platform in ("win32","darwin") else max(1,cpu_count()-1)
 		self.h = initial_model
 
 		update_constant = False
-- 
2.43.0


From 9fc05f80b61977297280e3cc77773acb9a6d677e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 52/68] fix: fit_nonInstantiatedParameters fits the
 non-instantiated parameters only

---
 jajapy/base/BW.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index b8adb43..3fe19e7 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1262,7 +1262,8 @@ class BW:
 			raise RuntimeError("The initial model must be a PCTMC")
 		to_update = []
 		for p in initial_model.parameter_str:
-			to_update.append(p)
+			if not initial_model.isInstantiated(param=p):
+				to_update.append(p)
 		
 		return self.fit_parameters(traces,initial_model,to_update,epsilon,
 								max_it,pp,verbose,return_data,min_val,max_val)
@@ -1395,6 +1396,8 @@ class BW:
 				self.h.randomInstantiation(min_val=min_val)
 		elif max_val != None:
 			self.h.randomInstantiation(max_val=max_val)
+		else:
+			self.h.randomInstantiation()
 		
 		if self.training_set.type == 4:
 			self._computeAlphas = self._computeAlphas_timed
-- 
2.43.0


From 3186649ab5339d446bfd02c7fa656a9e87d06e16 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 53/68] fix: fit_parameters handles absorbing states in untimed
 traces

---
 jajapy/base/BW.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 3fe19e7..161f2d5 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1399,9 +1399,11 @@ class BW:
 		else:
 			self.h.randomInstantiation()
 		
+		self._computeAlphas = self._computeAlphas_matrix
+		self._computeBetas  = self._computeBetas_matrix
 		if self.training_set.type == 4:
-			self._computeAlphas = self._computeAlphas_timed
-			self._computeBetas  = self._computeBetas_timed
+			self._computeAlphas = self._computeAlphas_timed_matrix
+			self._computeBetas  = self._computeBetas_timed_matrix
 		self.nb_parameters = self.h.nb_parameters
 		self.update_constant = update_constant
 		self._processWork = self._processWork_PCTMC
-- 
2.43.0


From e4e6725901f7933ec8bb4f327db7ff56dfdeb646 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 54/68] fix: fit_parameters does not remove states from the
 given model

---
 jajapy/base/BW.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 161f2d5..ad44138 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -4,6 +4,7 @@ from numpy.polynomial.polynomial import polyroots
 from numpy import array, dot, append, zeros, ones, float64, inf, ndarray, log, isnan, sqrt, stack, longdouble, float16, where, delete, newaxis, full, infty, empty
 from math import exp
 from time import perf_counter
+from copy import deepcopy
 from .Set import Set
 from alive_progress import alive_bar
 from .Model import MC_ID, MDP_ID, CTMC_ID, PCTMC_ID, HMM_ID, GOHMM_ID
@@ -1331,6 +1332,8 @@ class BW:
 			raise RuntimeError("The initial model must be a PCTMC")
 		self.verbose = 2 if verbose else 0
 		self.processes = 1 if platform in ("win32","darwin") else max(1,cpu_count()-1)
+		given_model = initial_model
+		initial_model = deepcopy(initial_model) # states are removed from the copy
 		self.h = initial_model
 
 		update_constant = False
@@ -1419,6 +1422,7 @@ class BW:
 		res = {}
 		for p in to_update:
 			res[p] = self.h.parameterValue(p)
+		given_model.instantiate(list(res.keys()),list(res.values()))
 		if return_data:
 			return res, returned[1]
 		else:
-- 
2.43.0


From d84b88fa9a22001e14c39293622068d0a1bd3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 55/68] fix: a Set does not share the list of traces it is
 given

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index 365fb84..484d4a1 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -45,7 +45,7 @@ class Set:
 		if type(times) == type(None):
 			self.setFromList(sequences)
 		else:
-			self.sequences = sequences
+			self.sequences = list(sequences)
 			self.times = array(times)
 	
 	def save(self,file_path: str) -> None:
-- 
2.43.0


From 20e22360e10d3a325b6616de7d1890c1eba304a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 56/68] fix: PCTMC learning handles parameters that reached
 (almost) zero

---
 jajapy/base/BW.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index ad44138..ec36399 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1145,9 +1145,9 @@ class BW:
 				for _ in range(1+c-len(temp)):
 					temp.append(0.0)
 				if timed:
-					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/(self.h.parameter_values[param]**c)
+					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()
 				else:
-					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/(self._h_e(s)*self.h.parameter_values[param]**c)
+					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/self._h_e(s)
 
 			terms_cat3.append(array(temp))
 
@@ -1198,7 +1198,8 @@ class BW:
 			if (temp[1:] == 0.0).all(): # never used
 				values.append(self.h.parameter_values[self.parameters_cat[2][p]])
 			else: # the only non-negative root is the one with the smallest modulus
-				values.append(min(abs(polyroots(temp))))
+				ratio = min(abs(polyroots(temp)))
+				values.append(self.h.parameter_values[self.parameters_cat[2][p]]*ratio)
 
 		self.h.instantiate(parameters,values)
 		return currentloglikelihood
-- 
2.43.0


From 01b966df8f0815a552416766f8b6f605caf2cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 57/68] fix: active learning runs with one process and with
 impossible traces

---
 jajapy/mdp/Active_BW_MDP.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index bd5516a..b859d94 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -331,11 +331,13 @@ class Active_BW_MDP(BW):
 			tasks = []
 			for seq,times in zip(traces.sequences,traces.times):
 				tasks.append(p.apply_async(self._computeProbas, [seq, times,]))
-			temp = [res.get() for res in tasks if res != False]
+			temp = [res.get() for res in tasks]
 		else:
 			temp = [self._computeProbas(seq, times) for seq,times in zip(traces.sequences,traces.times)]
-			temp = [i for i in temp if i!=False]
-		res = sum(temp)
+		res = zeros(shape=(self.nb_states,len(self.actions)))
+		for i in temp:
+			if i is not False:
+				res += i
 		return res
 
 	def _computeProbas(self,seq:list,times:int) -> array:
-- 
2.43.0


From a3b70b879b184189311d22eea979ecb6737222f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 58/68] fix: active learning merges with the previous
 hypothesis

---
 jajapy/mdp/Active_BW_MDP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index b859d94..037cf8e 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -6,6 +6,7 @@ from multiprocessing import Pool
 from random import random
 from numpy import zeros, dot, array, inf
 from time import perf_counter
+from copy import deepcopy
 
 class ActiveLearningScheduler:
 	"""
@@ -235,7 +236,7 @@ class Active_BW_MDP(BW):
 					lr_it = sum(traces.times)/(sum(total_traces.times)-sum(traces.times))
 				else:
 					lr_it = lr
-				old_h = self.h
+				old_h = deepcopy(self.h) # fit updates self.h in place
 				_, info = super().fit(traces, initial_model=self.h,
 							output_file=output_file, epsilon=epsilon,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
-- 
2.43.0


From 1daed2204a8ddf78269ff966d400b47eb31593f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 59/68] fix: the dynamic learning rate is never more than 1

---
 jajapy/mdp/Active_BW_MDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 037cf8e..0c357f2 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -233,7 +233,7 @@ class Active_BW_MDP(BW):
 				counter += info['learning_rounds']
 			else:
 				if lr == "dynamic":
-					lr_it = sum(traces.times)/(sum(total_traces.times)-sum(traces.times))
+					lr_it = sum(traces.times)/sum(total_traces.times)
 				else:
 					lr_it = lr
 				old_h = deepcopy(self.h) # fit updates self.h in place
-- 
2.43.0


From d9cca2f03f6eed01f9bc4832b17e9b4d49704714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 60/68] fix: active learning does not extend the training set
 it is given

---
 jajapy/mdp/Active_BW_MDP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 0c357f2..8cad4d8 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -215,10 +215,11 @@ class Active_BW_MDP(BW):
 							  processes=processes)
 		counter += info['learning_rounds']
 	
-		total_traces = traces
+		# the given training set is not modified
+		total_traces = Set(self.training_set.sequences,self.training_set.times,self.training_set.type)
 		
 		if sequence_length == None:
-			sequence_length = int(len(traces.sequences[0])/2)
+			sequence_length = int(len(total_traces.sequences[0])/2)
 
 		c = 1
 		while c <= nb_iterations :
-- 
2.43.0


From 2eee55a3761d5494554e80ca842ebe04574b3173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 61/68] fix: active learning returns its data with a Storm
 model too

---
 jajapy/mdp/Active_BW_MDP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 8cad4d8..53094ad 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -199,7 +199,7 @@ class Active_BW_MDP(BW):
 			fitted MDP.
 		"""
 		if stormpy_output and not self.stormpy_installed:
-			if self.verbose > 0:
+			if verbose > 0:
 				print("WARNING: stormpy not found. The output model will be a Jajapy model")
 			stormpy_output = False
 
@@ -258,17 +258,17 @@ class Active_BW_MDP(BW):
 		if verbose == 3:
 			self._endPrint(counter,running_time)
 
-		if stormpy_output :
-			self.h = self.jajapyModeltoStormpy(self.h)
-			
 		if return_data:
 			info = {"learning_rounds":counter,
 					"learning_time":running_time,
 					"training_set_loglikelihood":self.h.logLikelihood(total_traces)}
+
+		if stormpy_output :
+			self.h = self.jajapyModeltoStormpy(self.h)
+			
+		if return_data:
 			return self.h, info
 	
-
-
 		return self.h
 
 	def _mergeModels(self,old_h,lr: float) -> None:
-- 
2.43.0


From 21016737a6a39cf7a79ea43a174eb3954ac593c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 62/68] fix: max_it bounds the active iterations too

---
 jajapy/mdp/Active_BW_MDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 53094ad..292078f 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -228,7 +228,7 @@ class Active_BW_MDP(BW):
 			
 			if lr == 0:
 				_,info = super().fit(total_traces, initial_model=self.h,
-							output_file=output_file, epsilon=epsilon,
+							output_file=output_file, epsilon=epsilon, max_it=max_it,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
 							return_data=True, stormpy_output=False, verbose=verbose,processes=processes)
 				counter += info['learning_rounds']
@@ -239,7 +239,7 @@ class Active_BW_MDP(BW):
 					lr_it = lr
 				old_h = deepcopy(self.h) # fit updates self.h in place
 				_, info = super().fit(traces, initial_model=self.h,
-							output_file=output_file, epsilon=epsilon,
+							output_file=output_file, epsilon=epsilon, max_it=max_it,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
 							return_data=True, stormpy_output=False, verbose=verbose,processes=processes)
 				counter += info['learning_rounds']
-- 
2.43.0


From 83b07f0cfa67cb9696e566d817a68166f864a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 63/68] fix: the active scheduler always finds an available
 action

---
 jajapy/mdp/Active_BW_MDP.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 292078f..fcb7b39 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -31,6 +31,7 @@ class ActiveLearningScheduler:
 		Resets the scheduler. Should be done before genereting a new trace.
 		"""
 		self.last_act = None
+		self.refused = []
 		self.alpha_matrix = array([self.m.pi(s) for s in range(self.nb_states)])
 	
 	def getActionState(self,s:int) -> str:
@@ -49,7 +50,9 @@ class ActiveLearningScheduler:
 			Action chosen by the scheduler.
 		"""
 		tot = self.mat[s].sum()
-		acts = [(tot-i)/(tot*(self.m.nb_actions-1)) for i in self.mat[s]]
+		acts = [0.0 if i in self.refused else max(tot-n,0.0) for i,n in enumerate(self.mat[s])]
+		if sum(acts) <= 0.0: # no preference in this state
+			acts = [0.0 if i in self.refused else 1.0 for i in range(len(acts))]
 		return resolveRandom(acts)
 
 
@@ -62,6 +65,12 @@ class ActiveLearningScheduler:
 		str
 			Action chosen by the scheduler.
 		"""
+		if self.last_act != None:
+			# asked again before any observation: the last action is not
+			# available in the current state of the system under learning.
+			self.refused.append(self.last_act)
+			if len(self.refused) >= len(self.m.actions):
+				raise ValueError("none of the actions of the hypothesis is available")
 		tot = self.alpha_matrix.sum()
 		if tot <= 0.0:
 			t = [1/len(self.alpha_matrix)]*len(self.alpha_matrix)
@@ -90,6 +99,8 @@ class ActiveLearningScheduler:
 				p = array([self.m.tau(ss,self.m.actions[self.last_act],s,obs) for ss in range(self.nb_states)])
 				alpha_matrix[s] = dot(self.alpha_matrix,p)
 			self.alpha_matrix = alpha_matrix
+		self.last_act = None
+		self.refused = []
 
 
 class Active_BW_MDP(BW):
-- 
2.43.0


From b2a5780937b7d90d2306053aa2c006379349bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 64/68] fix: an MDP can be learned from a list of traces

---
 jajapy/base/BW.py           | 4 +++-
 jajapy/mdp/Active_BW_MDP.py | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index ec36399..fbb72d3 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1454,7 +1454,9 @@ class BW:
 			training_set = training_set.tolist()
 		if type(training_set) == list:
 			training_set = Set(training_set)
-			if training_set.type == 0:
+			if training_set.type == 0 and self.type_model == MDP_ID:
+				training_set.type = MDP_ID
+			elif training_set.type == 0:
 				a = set()
 				l = set()
 				mdp = True
diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index fcb7b39..0ffaa63 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -4,7 +4,7 @@ from ..base.Set import Set
 from ..base.tools import resolveRandom
 from multiprocessing import Pool
 from random import random
-from numpy import zeros, dot, array, inf
+from numpy import zeros, dot, array, inf, ndarray
 from time import perf_counter
 from copy import deepcopy
 
@@ -214,6 +214,11 @@ class Active_BW_MDP(BW):
 				print("WARNING: stormpy not found. The output model will be a Jajapy model")
 			stormpy_output = False
 
+		if type(traces) == ndarray:
+			traces = traces.tolist()
+		if type(traces) == list:
+			traces = Set(traces,t=1)
+
 		counter = 0
 		self.sul = sul
 		start_time = perf_counter()
-- 
2.43.0


From 35f3e2046e50d1f072277f3fc27851899ffad0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 65/68] fix: BW counts untimed traces ending in an absorbing
 state

---
 jajapy/base/BW.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index fbb72d3..66952bd 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1582,6 +1582,8 @@ class BW:
 			for s in range(self.nb_states):
 				p = array([self._h_tau(ss,s,sequence[k]) for ss in range(self.nb_states)],dtype=dtype)
 				alpha_matrix[k+1,s] = dot(alpha_matrix[k],p)
+		for s in self._absorbing():
+			alpha_matrix[-1,s] += alpha_matrix[-2,s]*self.h.b(s,sequence[-1])
 		return alpha_matrix.T
 
 	def _computeBetas_matrix(self, sequence: list[str], times_seq: list[float] = None) -> array:
@@ -1657,8 +1659,18 @@ class BW:
 			for s in range(self.nb_states):
 				p = array([self._h_tau(s,ss,sequence[k]) for ss in range(self.nb_states)],dtype=dtype)
 				beta_matrix[k,s] = dot(beta_matrix[k+1],p)
+			if k == len_seq-1:
+				for s in self._absorbing():
+					beta_matrix[k,s] = self.h.b(s,sequence[k])
 		return beta_matrix.T
 
+	def _absorbing(self) -> list:
+		"""
+		Returns the states without any outgoing transition: a trace can end in
+		such a state, but not go through it.
+		"""
+		return [s for s in range(self.nb_states) if not self.h.matrix[s].any()]
+
 	def _computeTaus(self):
 		pass
 	
-- 
2.43.0


From 0af7cb86150c30b344488f0ce26adbe8604439da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 66/68] fix: BW does not modify the training set it is given

---
 jajapy/base/BW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 66952bd..f36d415 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1474,8 +1474,8 @@ class BW:
 			else:
 				self.alphabet = training_set.getAlphabet()
 			if not 'init' in self.alphabet:
-				for s in range(len(training_set.sequences)):
-					training_set.sequences[s].insert(0,'init')
+				# on a copy: the given training set is left as it is
+				training_set = Set([['init']+list(s) for s in training_set.sequences],training_set.times,training_set.type)
 			else:
 				self.alphabet.remove('init')
 
-- 
2.43.0


From eadf104e2050d14fcb6120a44538867ea358af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 67/68] fix: an initial distribution has to sum up to 1

---
 jajapy/base/Model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index d3c5811..eee7674 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -43,7 +43,7 @@ class Model:
 			self.initial_state = array([0.0 for i in range(self.nb_states)])
 			self.initial_state[initial_state] = 1.0
 		else:
-			if round(sum(initial_state)) != 1.0:
+			if round(sum(initial_state),3) != 1.0:
 				msg = "Error: the sum of initial_state should be 1.0, here it's"
 				msg+= str(sum(initial_state))
 				raise ValueError(msg)
-- 
2.43.0


From 65810ffa345fe0787303b168b646a6ab64b128f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 68/68] fix: a parameter can have a name that sympy uses for
 something else

---
 jajapy/base/BW.py                      |  7 ++++---
 jajapy/base/Parametric_Model.py        | 22 ++++++++++++++++++----
 jajapy/pctmc/PCTMC.py                  |  6 +++---
 jajapy/with_stormpy/model_converter.py |  3 ++-
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index f36d415..d0f73b4 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -8,7 +8,8 @@ from copy import deepcopy
 from .Set import Set
 from alive_progress import alive_bar
 from .Model import MC_ID, MDP_ID, CTMC_ID, PCTMC_ID, HMM_ID, GOHMM_ID
-from sympy import sympify
+from .Parametric_Model import parametersToSymbols
+from sympy import sympify, Symbol
 
 class BW:
 	"""
@@ -977,8 +978,8 @@ class BW:
 			`s1` to `s2`.
 		"""
 		#used only if p is the only non-fixed parameter
-		t = self.h.transitionExpression(s1,s2).subs(p,1.0)
-		return float(t.evalf(subs=self.h.parameter_values))
+		t = self.h.transitionExpression(s1,s2).subs(Symbol(p),1.0)
+		return float(t.evalf(subs=parametersToSymbols(self.h.parameter_values)))
 
 	def _C(self,s1:int ,s2:int) -> int:
 		"""
diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 0ccea98..acdbb0b 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -4,7 +4,7 @@ from ast import literal_eval
 from copy import deepcopy
 from ..base.Set import Set
 from ..base.Model import Model, PCTMC_ID
-from sympy import sympify
+from sympy import sympify, Symbol
 
 class Parametric_Model(Model):
 	"""
@@ -144,7 +144,7 @@ class Parametric_Model(Model):
 			instantiated, returns the symbolic representation of the
 			transition.
 		"""
-		return self.transition_expr[self.matrix[i,j]].evalf(subs=self.parameter_values)
+		return self.transition_expr[self.matrix[i,j]].evalf(subs=parametersToSymbols(self.parameter_values))
 
 	def transitionExpression(self,i:int,j:int):
 		"""
@@ -276,7 +276,7 @@ class Parametric_Model(Model):
 		"""
 		if parameter_values == None:
 			parameter_values = self.parameter_values
-		v =  self.transitionExpression(i,j).evalf(subs=parameter_values)
+		v =  self.transitionExpression(i,j).evalf(subs=parametersToSymbols(parameter_values))
 		try:
 			v = float(v)
 		except TypeError:
@@ -463,6 +463,20 @@ class Parametric_Model(Model):
 		elif s >= self.nb_states:
 			raise IndexError('This model contains only '+str(self.nb_states)+' states')
 
+def parseExpression(expr, parameter_str: list):
+	"""
+	Returns the symbolic representation of `expr`, where each name in
+	`parameter_str` is a parameter, even if sympy uses this name for something
+	else (e.g. `E`, `pi` or `beta`).
+	"""
+	return sympify(expr,locals={p: Symbol(p) for p in parameter_str})
+
+def parametersToSymbols(parameter_values: dict) -> dict:
+	"""
+	Returns `parameter_values` with the symbols of the parameters as keys.
+	"""
+	return {Symbol(p): v for p,v in parameter_values.items()}
+
 def loadParametricModel(f):
 	"""
 	Used by the inherited classes.
@@ -475,5 +489,5 @@ def loadParametricModel(f):
 	parameter_indexes = literal_eval(f.readline()[:-1])
 	parameter_str = literal_eval(f.readline()[:-1])
 	transition_expr = literal_eval(f.readline()[:-1])
-	transition_expr = [sympify(i) for i in transition_expr]
+	transition_expr = [parseExpression(i,parameter_str) for i in transition_expr]
 	return matrix,labelling,parameter_values,parameter_indexes,parameter_str,transition_expr,name
\ No newline at end of file
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 3d58e8a..1433c9a 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -546,7 +546,7 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	matrix = zeros((nb_states,nb_states),dtype='uint16')
 	for t in transitions:
 		val = str(t[2])
-		expr = sympify(val)
+		expr = parseExpression(val,parameter_str)
 		if expr.is_real or not expr in transition_expr:
 			transition_expr.append(expr)
 		matrix[t[0],t[1]] = transition_expr.index(expr)
@@ -710,8 +710,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 		add_in_matrix(trans_expr.index(expr),i,j,model,add_index)
 	
 	def add_sync_transition(a,s1, d1, expr1, s2, d2, expr2):
-		expr1 = sympify(expr1)
-		expr2 = sympify(expr2)
+		expr1 = parseExpression(expr1,p_str)
+		expr2 = parseExpression(expr2,p_str)
 		expr = expr1*expr2
 		for p in expr.free_symbols:
 			if not p.name in p_str:
diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index 4e0761a..593e9d5 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -4,6 +4,7 @@ from ..mc.MC import MC
 from ..mdp.MDP import MDP
 from ..ctmc.CTMC import CTMC
 from ..pctmc.PCTMC import PCTMC
+from ..base.Parametric_Model import parseExpression
 from copy import deepcopy
 import os
 from sympy import symbols, sympify
@@ -113,7 +114,7 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 							p_i.append([])
 							p_v[v] = nan
 						p_i[p_str.index(v)].append([c,dest])
-					t_val = sympify(str(t_val))
+					t_val = parseExpression(str(t_val),p_str)
 					if t_val.is_real or not t_val in t_expr:
 						matrix[c][dest] = len(t_expr)
 						t_expr.append(t_val)
-- 
2.43.0

