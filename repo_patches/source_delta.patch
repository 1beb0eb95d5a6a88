From 8c036e5bc51283cdae30b221881912a9c5e1badc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 01/46] fix: enumerate component names in basis order
 regardless of earlier lookups

---
 .../nodes/nodelist/optical_values_component_names.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index 2f18f81..41cc512 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -206,6 +206,7 @@ class ComponentNames():
         self.no_of_optical_channels = no_of_optical_channels
         self.channel_0_left_in_state_name = channel_0_left_in_state_name
         self.dict_of_optical_values, self.dict_of_valid_component_names = dict([]), dict([])
+        self._basis_is_enumerated = False
         self.digits_per_channel = len(str(length_of_fock_state-1))
         self.string_format_in_state_as_word = "{:0"+str(self.digits_per_channel)+ "d}"
         self.tuple_of_strings = tuple(self.string_format_in_state_as_word.format(number) for number in range(self.length_of_fock_state))
@@ -229,14 +230,17 @@ class ComponentNames():
         
     def __iter__(self):
         """ Iterator for optical component names as a string"""
-        if len(self.dict_of_valid_component_names) == self.size_of_basis:
-            return iter(self.dict_of_optical_values)
+        # looking up single names fills the dictionary in arbitrary order (and can add invalid names), so only
+        # rely on the dictionary if it was generated here and no names have been added since.
+        if self._basis_is_enumerated and len(self.dict_of_valid_component_names) == self.size_of_basis:
+            return iter(self.dict_of_valid_component_names)
 
         self.list_of_fock_states = [self._values_from_index(n)  for n in range(self.length_of_fock_state**self.no_of_optical_channels)]
         if self.channel_0_left_in_state_name == True:
             self.dict_of_valid_component_names = {''.join([self.tuple_of_strings[number] for number in optical_state]):optical_state for optical_state in self.list_of_fock_states}
         else: #self.state_least_significant_digit_left == False:
             self.dict_of_valid_component_names = {''.join([self.tuple_of_strings[number] for number in optical_state[::-1]]):optical_state for optical_state in self.list_of_fock_states}       
+        self._basis_is_enumerated = True
 
         return iter(self.dict_of_valid_component_names)
     
@@ -389,6 +393,7 @@ class OpticalValues():
         self.no_of_optical_channels = component_names.no_of_optical_channels
         self.channel_0_left_in_state_name = component_names.channel_0_left_in_state_name
         self.dict_of_optical_values, self.dict_of_valid_component_names =  component_names.dict_of_optical_values, component_names.dict_of_valid_component_names
+        self._basis_is_enumerated = False
         self.digits_per_channel = component_names.digits_per_channel
         self.string_format_in_state_as_word = component_names.string_format_in_state_as_word
         self.tuple_of_strings = component_names.tuple_of_strings
@@ -409,9 +414,10 @@ class OpticalValues():
             return component_name
     
     def __iter__(self):
-        if len(self.dict_of_optical_values) == self.size_of_basis:
+        if self._basis_is_enumerated and len(self.dict_of_optical_values) == self.size_of_basis:
             return iter(self.dict_of_optical_values)
         self.dict_of_optical_values = {tuple(v):k for k,v in self.component_names.items()}      
+        self._basis_is_enumerated = True
         return iter(self.dict_of_optical_values)
     
     def __len__(self) -> int:
-- 
2.43.0


From 1780526ac21bf856a607c7e8f2916952b42cc562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 02/46] fix: tensor list for channel pairs with horizontal
 channel above 1 and vertical channel 0

---
 src/fock_state_circuit/nodes/nodelist/node_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/node_list.py b/src/fock_state_circuit/nodes/nodelist/node_list.py
index aa59fdb..13991f0 100644
--- a/src/fock_state_circuit/nodes/nodelist/node_list.py
+++ b/src/fock_state_circuit/nodes/nodelist/node_list.py
@@ -204,7 +204,9 @@ class NodeList():
                 tensor_list[0], tensor_list[1] = tensor_list[1], tensor_list[0] #swap
             else:
                 tensor_list[0], tensor_list[channel_horizontal] = tensor_list[channel_horizontal],  tensor_list[0]
-                tensor_list[1], tensor_list[channel_vertical] = tensor_list[channel_vertical],  tensor_list[1]  
+                # the first swap can have moved channel_vertical, so look up where it is now
+                position_vertical = tensor_list.index(channel_vertical)
+                tensor_list[1], tensor_list[position_vertical] = tensor_list[position_vertical],  tensor_list[1]  
         
         else:
             raise Exception('error creating tensor list, more than two channels provided')
-- 
2.43.0


From b663798f3ccf2fe60ad4e0f199349e4c821ebea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 03/46] fix: reject component names with missing digits

---
 .../nodes/nodelist/optical_values_component_names.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index 41cc512..702e437 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -247,7 +247,7 @@ class ComponentNames():
     def __contains__(self, key: str) -> bool:
         """ True if the componet name (as string) represent a valid optical state."""
         values = self.__getitem__(key)
-        return len(values) == self.no_of_optical_channels and min(values) >= 0 and max(values) < self.length_of_fock_state
+        return len(key) == self.digits_per_channel*self.no_of_optical_channels and len(values) == self.no_of_optical_channels and min(values) >= 0 and max(values) < self.length_of_fock_state
     
     def __len__(self) -> int:
         """ Total number of possible states as number_of_possible_optical_values ^ number_of_optical_channels."""
-- 
2.43.0


From eb62697730d4a2dad3bc5d1fdd4ae56ea1042859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 04/46] fix: apply non-symmetric optical matrices to input
 states instead of their transpose

---
 src/fock_state_circuit/circuit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 3126ba1..25c2c43 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -875,11 +875,11 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         tad = matrix[1][0]  
         length = self._length_of_fock_state
         fock_matrix = np.zeros((length**2, length**2), dtype = np.csingle) # the matrix is pre-filled as zero matrix
-        for l1 in range(0,length**2): #l1 is the vertical index in fock_matrix
+        for l1 in range(0,length**2): #l1 is the horizontal index in fock_matrix (input)
             # n and m are the input photon numbers in the two channels
             n = int(l1%length)
             m = int((l1-n)/length)
-            #n and m are input photon numbers, l1 is the counter for output data. l1 = m * Length + n
+            #n and m are input photon numbers, l1 is the counter for input data. l1 = m * Length + n
             #the input is a state |n>|m> . The mixing has a transmission (t) and a reflection (r)
             #the matrix is [t,r],[r,-t]. Output is a sum of states |u>|v>
             #so transformation is  |n>|m>|0>|0>  to (a**n)(b**m)|0>|0>|0>|0> to  Sum((c**u)(d**v)|0>|0>|0>|0>) to Sum(|0>|0>|u>|v>)
@@ -895,15 +895,15 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                     coeff = coeff * math.sqrt(math.factorial(u)*math.factorial(v)/(math.factorial(n)*math.factorial(m)))
                     #total number of photons cannot exceed (length-1) for each of the output channels
                     if ((u < length) and (v < length)):
-                        l2 = v * length + u #l2 is the horizontal index in fock_matrix
-                        fock_matrix[l1][l2] = fock_matrix[l1][l2] + coeff
+                        l2 = v * length + u #l2 is the vertical index in fock_matrix (output)
+                        fock_matrix[l2][l1] = fock_matrix[l2][l1] + coeff
                         # if make_unitary is set to True we have to set all coefficients for output states with 
                         if make_unitary:
                             if n + m >= length or u + v >= length:
                                 if (n == u) and (m == v):
-                                    fock_matrix[l1][l2] = 1.0
+                                    fock_matrix[l2][l1] = 1.0
                                 else:
-                                    fock_matrix[l1][l2] = 0.0
+                                    fock_matrix[l2][l1] = 0.0
             
         if tensor_list is None:
             return (fock_matrix, [])
-- 
2.43.0


From 357f2d1a96b0fc9b913131128591bf2dd1de7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 05/46] fix: generic mixing follows the given reflection and
 transmission for all values

---
 src/fock_state_circuit/nodes/optical_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 59dc40b..4b12d0d 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -662,7 +662,8 @@ class OpticalNodes(NodeList):
             raise Exception(
                 'For generic mixing the sum or reflection and transmission has to be 1 and both have to between 0 and 1 (including)'
                 )
-        theta = math.atan2(math.sqrt(reflection),math.sqrt(transmission))
+        # at angle theta the mixing matrix is [[cos(2*theta), sin(2*theta)],[sin(2*theta), -cos(2*theta)]]
+        theta = math.atan2(math.sqrt(transmission),math.sqrt(reflection))/2
         self.__apply_generic_rotation_2_channels(first_channel, second_channel, theta = theta, phi = math.pi, node_info = node_info)
         return
     
-- 
2.43.0


From d0100542cf104805541e4d16e4679416be479752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 06/46] fix: accept reflection and transmission adding up to 1
 within floating point accuracy

---
 src/fock_state_circuit/nodes/optical_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 4b12d0d..747bbfd 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -658,7 +658,7 @@ class OpticalNodes(NodeList):
                     'markersize' : 20,
                     'fillstyle' : 'full'
                 }|node_info
-        if reflection + transmission != 1:
+        if abs(reflection + transmission - 1) > 1e-9:
             raise Exception(
                 'For generic mixing the sum or reflection and transmission has to be 1 and both have to between 0 and 1 (including)'
                 )
-- 
2.43.0


From 100cc155ca72ee29db41b6ee8c1729e102248447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 07/46] fix: single channel phase shift also applies next to
 high photon numbers in another channel

---
 src/fock_state_circuit/circuit.py                | 7 ++++++-
 src/fock_state_circuit/nodes/controlled_nodes.py | 1 +
 src/fock_state_circuit/nodes/optical_nodes.py    | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 25c2c43..97fe0c6 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -497,7 +497,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 
                 # generate custom node from which to calculate the fock state matrix
                 tensor_list = self.node_list[current_node_index].get('tensor_list')
-                single_custom_node = {'matrix_optical':optical_matrix, 'tensor_list': tensor_list}
+                single_custom_node = {'matrix_optical':optical_matrix, 'tensor_list': tensor_list, 
+                                      'make_unitary': self.node_list[current_node_index].get('make_unitary', True)}
 
                 # make a collection for just one state
                 collection_of_single_state = CollectionOfStates(self, input_collection_as_a_dict={identifier:state})
@@ -792,6 +793,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             nodes_to_be_evaluated = [0]
             optical_matrix = single_custom_node['matrix_optical']
             tensor_list = single_custom_node['tensor_list']
+            make_unitary = single_custom_node.get('make_unitary', True)
         else:
             # if nodes_to_be_evaluated == 'all' make a list with all indices in node_list
             if nodes_to_be_evaluated == 'all':
@@ -809,11 +811,13 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             node = self.node_list[index]
             optical_matrix = node['matrix_optical']
             tensor_list = node['tensor_list']
+            make_unitary = node.get('make_unitary', True)
 
         # we now either have a list nodes to be converted one by one,or we have a single optical matrix to be converted.
         try: 
             matrix_fock_state_single_node, list_of_state_indices = self.__generate_single_node_fock_matrix_from_optical_matrix(
                 matrix = optical_matrix, 
+                make_unitary = make_unitary,
                 tensor_list = tensor_list,
                 photon_number_selection = photon_number_selection
                 )
@@ -831,6 +835,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
 
                 matrix_fock_state_single_node, list_of_state_indices  = self.__generate_single_node_fock_matrix_from_optical_matrix(
                     matrix = optical_matrix, 
+                    make_unitary = node.get('make_unitary', True),
                     tensor_list = tensor_list,
                     photon_number_selection = photon_number_selection
                     )
diff --git a/src/fock_state_circuit/nodes/controlled_nodes.py b/src/fock_state_circuit/nodes/controlled_nodes.py
index 8372f76..ab66ef5 100644
--- a/src/fock_state_circuit/nodes/controlled_nodes.py
+++ b/src/fock_state_circuit/nodes/controlled_nodes.py
@@ -93,6 +93,7 @@ class ControlledNodes(NodeList):
         node_to_be_added = {'function' : '__generic_optical_matrix(theta, phi)',
                                 'control_parameters': control_parameters,
                                 'tensor_list' : tensor_list,
+                                'make_unitary' : False, # only one channel is involved, no limit on photon number for two mixed channels
                                 'node_type' : 'controlled',
                                 'node_info' : node_info
                                 }
diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 747bbfd..a439040 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -555,6 +555,8 @@ class OpticalNodes(NodeList):
                                                 theta = 0,
                                                 phi = phase_shift,
                                                 node_info = node_info)
+        # only one channel is involved, so the limit on the photon number for two mixed channels does not apply
+        self.node_list[-1]['make_unitary'] = False
         return
     
    
-- 
2.43.0


From 293757ca0a34d2d74a2a9cc4fdeb5bb1859b28c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 08/46] fix: shift, c-shift and coupling matrices apply the
 channel pairs in the given order

---
 src/fock_state_circuit/nodes/custom_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index f97fafb..1bc0c6c 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -213,7 +213,7 @@ class CustomNodes(NodeList):
                 coupling_matrix = coupling_matrix_one_target_control_combination
                 this_is_first_round = False
             else:
-                coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combination)
+                coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combination, coupling_matrix)
 
         if node_info == None: node_info = {}
         node_info = {
@@ -440,7 +440,7 @@ class CustomNodes(NodeList):
                 coupling_matrix = coupling_matrix_one_target_control_combination
                 this_is_first_round = False
             else:
-                coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combination)
+                coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combination, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
@@ -526,7 +526,7 @@ class CustomNodes(NodeList):
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.sqrt(np.cdouble((1-coupling_strength))*(1 + 0*1j))
                     else:
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.cdouble(0)
-            coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combintation)
+            coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combintation, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
-- 
2.43.0


From 1dda9cfc7e6e294f3cb54eae981bed23aeaca3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 09/46] fix: nodes on channels outside the circuit raise the
 documented exception

---
 src/fock_state_circuit/nodes/controlled_nodes.py     |  8 ++++----
 src/fock_state_circuit/nodes/custom_nodes.py         | 12 ++++++------
 .../nodes/quantum_operator_nodes.py                  |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fock_state_circuit/nodes/controlled_nodes.py b/src/fock_state_circuit/nodes/controlled_nodes.py
index ab66ef5..b1548c1 100644
--- a/src/fock_state_circuit/nodes/controlled_nodes.py
+++ b/src/fock_state_circuit/nodes/controlled_nodes.py
@@ -54,9 +54,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if classical_channel_for_phase_shift > self._no_of_classical_channels:
+        if classical_channel_for_phase_shift >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if optical_channel_to_shift > self._no_of_optical_channels:
+        if optical_channel_to_shift >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
 
         if node_info == None: node_info = {}
@@ -130,9 +130,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index 1bc0c6c..1c996b1 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -189,12 +189,12 @@ class CustomNodes(NodeList):
         error = False
         if len(shift_per_channel) == len(target_channels):
             for shift, target in zip(shift_per_channel, target_channels):
-                if min(shift, target) < 0 or target > self._no_of_optical_channels:
+                if min(shift, target) < 0 or target >= self._no_of_optical_channels:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.shift')
+            raise Exception('Error in channel input for function FockStateCircuit.shift')
 
         this_is_first_round = True  
         # for each channel create a transition matrix
@@ -412,14 +412,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.c_shift')
+            raise Exception('Error in channel input for function FockStateCircuit.c_shift')
             
         
         this_is_first_round = True  
@@ -491,14 +491,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.channel_coupling')
+            raise Exception('Error in channel input for function FockStateCircuit.channel_coupling')
             
         
         # the coupling matrix is pre-filled as identity matrix
diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index f7b6fd1..3690a48 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -145,9 +145,9 @@ class QuantumOperatorNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
-- 
2.43.0


From 576665119880c0fd70a3757040cfab4d117f1483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 10/46] fix: measurement history is not changed by later nodes
 or by changes to copies of the state

---
 src/fock_state_circuit/circuit.py | 4 ++--
 src/fock_state_circuit/state.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 97fe0c6..baf17b0 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -683,9 +683,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 new_state.classical_channel_values[n] = outcome[i]
             # 3. the new state's measurement results need to be updated with 
             try:
-                new_state.measurement_results.append({'measurement_results':new_state.classical_channel_values, 'probability': tot_prob})   
+                new_state.measurement_results.append({'measurement_results':list(new_state.classical_channel_values), 'probability': tot_prob})   
             except:
-                new_state.measurement_results = [{'measurement_results':new_state.classical_channel_values, 'probability': tot_prob}]
+                new_state.measurement_results = [{'measurement_results':list(new_state.classical_channel_values), 'probability': tot_prob}]
             new_state.optical_components = {self._dict_of_optical_values[tuple(name[0])]:{'amplitude':new_amplitude,'probability': new_probability} for name, new_amplitude, new_probability in zip(list_of_outcomes,new_amps, new_probs)}
             # 4. Other aspects like initial_state and auxiliary_information remain unchanged
             # add the new state to the collection
diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 9afb1d9..a66ba1f 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -429,7 +429,7 @@ class State():
                             'cumulative_probability' : self.state['cumulative_probability'],
                             'optical_components' : { name:amp_prob.copy() for name, amp_prob in self.state['optical_components'].items() }, 
                             'classical_channel_values' : self.state['classical_channel_values'].copy(),
-                            'measurement_results' : [{k:v for k,v in m_result.items()} for m_result in self.state['measurement_results']]
+                            'measurement_results' : copy.deepcopy(self.state['measurement_results'])
                             }
         auxiliary_information = self.state.get('auxiliary_information', None)
 
-- 
2.43.0


From e2639fba51159e9f5e375f24675598145c49b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 11/46] fix: evaluate all nodes when the list of nodes is not
 in ascending order

---
 src/fock_state_circuit/circuit.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index baf17b0..192e895 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -328,16 +328,10 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                     break
                 else:
                     optical_nodes_list.append(node_index)
-            if max(optical_nodes_list) >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
+            remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
         else:
             current_node_index = nodes_to_be_evaluated[0]
-            if current_node_index >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[1:]
+            remaining_nodes = nodes_to_be_evaluated[1:]
 
         #****************************************************
         #                                                   *
-- 
2.43.0


From 213743d0b2d366d8e73857944c7040ce62bc2ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 12/46] fix: evaluating a circuit does not change the input
 collection

---
 src/fock_state_circuit/circuit.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 192e895..3656580 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -378,7 +378,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         # case where next node is of type 'classical' *
         #**********************************************
         elif self.node_list[current_node_index].get('node_type') == 'classical':          
-            for state in collection_of_states_input:
+            # work on a copy, the input collection should not be affected
+            collection_of_states_output = collection_of_states_input.copy()
+            for state in collection_of_states_output:
                 # read the function from the node_list
                 classical_function = self.node_list[current_node_index].get('function')
 
@@ -388,7 +390,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                     self.node_list[current_node_index]['new_input_values'],
                     self.node_list[current_node_index]['affected_channels'])
                 
-            return self.evaluate_circuit(collection_of_states_input = collection_of_states_input, nodes_to_be_evaluated = remaining_nodes)
+            return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
   
         #**********************************************************************
         # case where next node is of type 'measurement'  *
@@ -515,7 +517,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             generic_function = self.node_list[current_node_index].get('generic_function')
             generic_function_parameters = self.node_list[current_node_index].get('generic_function_parameters')
             
-            collection_of_states_output = generic_function(collection_of_states_input,generic_function_parameters)
+            collection_of_states_output = generic_function(collection_of_states_input.copy(),generic_function_parameters)
          
             return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
 
@@ -712,8 +714,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         if collection_of_states is None:
             collection_of_states = CollectionOfStates(fock_state_circuit=self)
         else:
-            collection_of_states._fock_state_circuit = self
-            collection_of_states = collection_of_states.copy()
+            collection_of_states = CollectionOfStates(self, {identifier : state.copy() for identifier, state in collection_of_states.items()})
         if self._use_full_fock_matrix == True:
             # if 'use_full_fock_matrix' is set to 'True' we always use the complete matrix. There is no need to group
             # states by photon number.
-- 
2.43.0


From 953b3845d6444ffea40fe3a20cdd3ec010af1ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 13/46] fix: statistical mixture holds every listed state with
 its own weight

---
 src/fock_state_circuit/collection_of_states.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 4e52b8f..6890082 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -459,14 +459,15 @@ class CollectionOfStates(Plot):
             initial_state += alphabet[random.randint(0,len(alphabet)-1)]
 
         for state, weight in list_of_tuples_state_weight:
-            # make random identifier which is not yet used in self._collection_of_states.keys()
+            # make random identifier which is not yet used in the mixture
             identifier = 'identifier_' + alphabet[random.randint(0,len(alphabet)-1)]
-            while identifier in self._collection_of_states.keys():
+            while identifier in mixture.keys():
                 identifier += alphabet[random.randint(0,len(alphabet)-1)]
 
             # for initial state use initial state name in first state and copy to all in the mixture
 
             if bool(state):
+                state = state.copy()
                 state.cumulative_probability = weight
                 state.initial_state = initial_state
                 mixture.update({identifier : state})
-- 
2.43.0


From f47047189cc10aa5243dc196ebaf44215dd7f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 14/46] fix: clean up removes optical components with low
 probability also for normalized states

---
 src/fock_state_circuit/state.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index a66ba1f..5c2a557 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -572,12 +572,11 @@ class State():
         """  
         oc = self.state['optical_components']
         total_probability = 0
-        for component, amplitude_probability in oc.items():
-            if amplitude_probability['probability'] < self._threshold_probability_for_setting_to_zero:
-                amplitude_probability['probability'] = 0
-                amplitude_probability['amplitude'] = np.csingle(0)
-            else:
-                total_probability += np.abs(amplitude_probability['amplitude'])**2
+        oc = {component : amplitude_probability for component, amplitude_probability in oc.items() 
+              if amplitude_probability['probability'] >= self._threshold_probability_for_setting_to_zero}
+        for amplitude_probability in oc.values():
+            total_probability += np.abs(amplitude_probability['amplitude'])**2
+        self.state['optical_components'] = oc
 
         if np.abs(total_probability - 1.0) >= self._threshold_probability_for_setting_to_zero:
             scale_factor = 1/math.sqrt(total_probability)
-- 
2.43.0


From 8ef5843b6b8716f15ceafa28155afe4549927168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 15/46] fix: states made by reduce, extend and
 adjust_length_of_fock_state share no data

---
 .../collection_of_states.py                   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 6890082..22300a9 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -1,3 +1,4 @@
+import copy
 import random
 import string
 import math
@@ -825,8 +826,8 @@ class CollectionOfStates(Plot):
                     'cumulative_probability' :  old_state['cumulative_probability'] *cumulative_probability,
                     'optical_components' : new_optical_components, 
                     'classical_channel_values' : new_classical_values,
-                    'measurement_results' : old_state['measurement_results'],
-                    'auxiliary_information' : old_state['auxiliary_information']
+                    'measurement_results' : copy.deepcopy(old_state['measurement_results']),
+                    'auxiliary_information' : copy.deepcopy(old_state['auxiliary_information'])
                     }
                 new_state = State(collection_of_states=new_collection_of_states, input_state_as_a_dict=new_state_as_a_dict)
                 new_collection_of_states.add_state(state=new_state,identifier=identifier+traced_out_value)
@@ -883,13 +884,13 @@ class CollectionOfStates(Plot):
                 for value in values:
                     new_values.append(value%new_length_of_fock_state)
                 new_name = updated_circuit._dict_of_optical_values[tuple(new_values)]
-                new_optical_components.update({new_name:amp_prob})
+                new_optical_components.update({new_name:amp_prob.copy()})
             new_state_as_a_dict = { 'initial_state' : state.initial_state,
                                     'cumulative_probability' : state.cumulative_probability,
                                     'optical_components' : new_optical_components,
-                                    'classical_channel_values' : state.classical_channel_values,
-                                    'measurement_results' : state.measurement_results,
-                                    'auxiliary_information' : state.auxiliary_information
+                                    'classical_channel_values' : state.classical_channel_values.copy(),
+                                    'measurement_results' : copy.deepcopy(state.measurement_results),
+                                    'auxiliary_information' : copy.deepcopy(state.auxiliary_information)
                                     }
             new_state = State(collection_of_states=new_collection_of_states,input_state_as_a_dict=new_state_as_a_dict)
             new_collection_of_states.add_state(state = new_state, identifier=identifier)
@@ -1040,14 +1041,14 @@ class CollectionOfStates(Plot):
    
                     new_component_name = new_component_name_from_list(new_list)
        
-                    new_optical_components.update({new_component_name:amplitude_probability})
+                    new_optical_components.update({new_component_name:amplitude_probability.copy()})
 
                 new_state_as_a_dict = {   'initial_state' : old_state['initial_state'],
                     'cumulative_probability' :  old_state['cumulative_probability']*probability,
                     'optical_components' : new_optical_components, 
                     'classical_channel_values' : old_state['classical_channel_values'] + [0]*extra_classical_channels,
-                    'measurement_results' : old_state['measurement_results'],
-                    'auxiliary_information' : old_state['auxiliary_information']
+                    'measurement_results' : copy.deepcopy(old_state['measurement_results']),
+                    'auxiliary_information' : copy.deepcopy(old_state['auxiliary_information'])
                     }
                 if new_state_as_a_dict['cumulative_probability'] >= self._threshold_probability_for_setting_to_zero:
                     new_state = State(collection_of_states=new_collection_of_states, input_state_as_a_dict=new_state_as_a_dict)
-- 
2.43.0


From caa8f9138034f1189908631f4cd39af28f39652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 16/46] fix: reducing an empty collection updates the channels

---
 src/fock_state_circuit/collection_of_states.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 22300a9..01da464 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -833,13 +833,13 @@ class CollectionOfStates(Plot):
                 new_collection_of_states.add_state(state=new_state,identifier=identifier+traced_out_value)
 
 
-            #self = new_collection_of_states.copy()
-            self._fock_state_circuit = new_collection_of_states._fock_state_circuit
-            self._collection_of_states = new_collection_of_states.collection_as_dict()
-            self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
-            self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
-            self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
-            self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
+        #self = new_collection_of_states.copy()
+        self._fock_state_circuit = new_collection_of_states._fock_state_circuit
+        self._collection_of_states = new_collection_of_states.collection_as_dict()
+        self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
+        self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
+        self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
+        self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
 
         return 
     
-- 
2.43.0


From 770c25f1d834f39d15bf4578e2af3d358504bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 17/46] fix: correlations and histogram names for channel 0
 right in the name and for more digits per channel

---
 src/fock_state_circuit/visualization/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/visualization/plot.py b/src/fock_state_circuit/visualization/plot.py
index ea63572..84d8197 100644
--- a/src/fock_state_circuit/visualization/plot.py
+++ b/src/fock_state_circuit/visualization/plot.py
@@ -195,9 +195,10 @@ class Plot():
             str: name of the state of component derived from photon number per channel. e.g., '013'
         """        
         string_format_in_state_as_word = "{:0"+str(len(str(self._length_of_fock_state-1)))+ "d}"
-        name = ''.join([string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state])              
+        list_of_numbers = [string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state]
         if self._channel_0_left_in_state_name == False:
-            name = name[::-1]
+            list_of_numbers.reverse()
+        name = ''.join(list_of_numbers)
         return name
     
     def _create_list_of_values_from_name(self, name: str) -> list:
@@ -211,6 +212,8 @@ class Plot():
             end = start + len(str(self._length_of_fock_state-1))
             values.append(int(name[start:end]))
             start = end
+        if self._channel_0_left_in_state_name == False:
+            values.reverse()
         return values
     
 
-- 
2.43.0


From ed1ed295003eee56201265aabeaa481156449b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 18/46] fix: hamiltonians in a quantum operator are applied in
 the given order

---
 src/fock_state_circuit/nodes/quantum_operator_nodes.py        | 4 ++--
 .../quantum_operator_functionality/quantum_operators.py       | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index 3690a48..38c65f5 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -103,7 +103,7 @@ class QuantumOperatorNodes(NodeList):
             ham_theta_minus = Hamiltonian([('+0-0',-1*theta ),('-0+0',theta )], operator_channels)
             ham_chi = Hamiltonian([('-+00', -1j*chi),('00-+',-1j*chi )], operator_channels)
 
-            operator_generic_wave_plate_list= [ham_theta_minus,ham_phi,ham_theta_plus,ham_chi]
+            operator_generic_wave_plate_list= [ham_theta_plus,ham_phi,ham_theta_minus,ham_chi]
 
             operator_generic_wave_plate = QuantumOperator(operator_generic_wave_plate_list,
                                                           length_of_fock_state=collection._length_of_fock_state)
@@ -185,7 +185,7 @@ class QuantumOperatorNodes(NodeList):
                 ham_theta_minus = Hamiltonian([('+0-0',-1*theta ),('-0+0',theta )], operator_channels)
                 ham_chi = Hamiltonian([('-+00', -1j*chi),('00-+',-1j*chi )], operator_channels)
 
-                operator_generic_wave_plate_list= [ham_theta_minus,ham_phi,ham_theta_plus,ham_chi]
+                operator_generic_wave_plate_list= [ham_theta_plus,ham_phi,ham_theta_minus,ham_chi]
         
 
                 operator_generic_wave_plate = QuantumOperator( operator_generic_wave_plate_list, 
diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index cc3c9b5..dc30aa7 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -194,7 +194,8 @@ class QuantumOperator:
         """
         transition_matrix = np.identity(n=self._transition_matrices_list[0].shape[0], dtype=np.csingle)
         for matrix in self._transition_matrices_list:
-            transition_matrix = np.matmul(matrix,transition_matrix)
+            # the matrices have the input state as row and the output state as column
+            transition_matrix = np.matmul(transition_matrix,matrix)
         return transition_matrix
 
     def apply_operator_to_collection(self,input_collection: CollectionOfStates, optical_channels: list[int]) -> CollectionOfStates: # type: ignore
-- 
2.43.0


From 5f7a5006301250cb55b1bcb9f97ad8c2eee38333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 19/46] fix: each hamiltonian in a quantum operator acts on its
 own operator channels

---
 .../quantum_operator_functionality/quantum_operators.py    | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index dc30aa7..87fd9a9 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -99,11 +99,11 @@ class QuantumOperator:
             We create the class as frozen, so as immutable. We want to run calculations at initialization to ensure we do the calculation only once. Because this is a 
             'frozen' dataclass we need to use settattr to be able to modify the arguments (so it looks more complex than it actually is)
         """
-        object.__setattr__(self, 'operator_channels', self.hamiltonians[0].operator_channels)
+        object.__setattr__(self, 'operator_channels', [channel for hamiltonian in self.hamiltonians for channel in hamiltonian.operator_channels])
         lim_basis_to_values, lim_basis_to_index = self._generate_limited_basis(self.operator_channels, self.length_of_fock_state)
         object.__setattr__(self, '_lim_basis_to_values', lim_basis_to_values)
         object.__setattr__(self, '_lim_basis_to_index', lim_basis_to_index)
-        matrices = [self._generate_limited_matrix(hamiltonian.operators, self.operator_channels, self.length_of_fock_state) for hamiltonian in self.hamiltonians]
+        matrices = [self._generate_limited_matrix(hamiltonian.operators, hamiltonian.operator_channels, self.length_of_fock_state) for hamiltonian in self.hamiltonians]
         object.__setattr__(self, '_matrices', matrices)
         object.__setattr__(self, '_transition_matrices_list', self._exponentiaze())
         object.__setattr__(self, '_transition_matrix', self._combine_operators())
@@ -152,8 +152,7 @@ class QuantumOperator:
         Returns:
             ndarray: Matrix representing the effect of the operator.
         """
-        number_of_channels = len(set(operator_channels))
-        matrix_size = length_of_fock_state**number_of_channels
+        matrix_size = len(self._lim_basis_to_values)
         matrix = np.zeros((matrix_size,matrix_size), np.csingle)
         for index, values in self._lim_basis_to_values.items():
             for operator in operators:
-- 
2.43.0


From ad92e675be7028f35566141163c1d04471dd442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 20/46] fix: measurement ignores outcomes whose components all
 have amplitude zero

---
 src/fock_state_circuit/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 3656580..d577e80 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -664,6 +664,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             old_probabilities = old_amplitudes.real**2 + old_amplitudes.imag**2
             tot_amp = np.sum(old_amplitudes )
             tot_prob = np.sum(old_probabilities )
+            # an outcome for which all components have amplitude zero is never found
+            if tot_prob == 0: continue
             # renormalized to create new amplitudes and probabilities
             new_amps = old_amplitudes/np.sqrt(tot_prob)
             new_probs = new_amps.real**2 + new_amps.imag**2
-- 
2.43.0


From 57a0327409918b4eca81a0ba993a3e4fe72dfa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 21/46] fix: direct shift and c-shift nodes raise the
 documented exception for channels outside the circuit

---
 src/fock_state_circuit/nodes/custom_nodes.py | 24 ++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index 1c996b1..7da18cb 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -272,6 +272,17 @@ class CustomNodes(NodeList):
             'markersize' : 15,
             'fillstyle' : 'full'
         }|node_info
+        # check if lists with channel numbers are ok, otherwise throw exception
+        error = False
+        if len(shift_per_channel) == len(target_channels):
+            for target in target_channels:
+                if target < 0 or target >= self._no_of_optical_channels:
+                    error = True
+        else:
+            error = True
+        if error:
+            raise Exception('Error in channel input for function FockStateCircuit.shift_direct')
+
         def generic_function(input_collection,parameters):
             shift_per_channel = parameters[0]
             target_channels = parameters[1]
@@ -339,6 +350,19 @@ class CustomNodes(NodeList):
                 'fillstyle' : 'full'
             }|node_info
         
+        # check if lists with channel numbers are ok, otherwise throw exception
+        error = False
+        if len(control_channels) == len(target_channels):
+            for control, target in zip(control_channels,target_channels):
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
+                    error = True
+                if control == target:
+                    error = True
+        else:
+            error = True
+        if error:
+            raise Exception('Error in channel input for function FockStateCircuit.c_shift_direct')
+
         def generic_function(input_collection,parameters):
             control_channels = parameters[0]
             target_channels = parameters[1]
-- 
2.43.0


From 81d8751ff348b5eb372080189a7d2ab51c85c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 22/46] fix: tensor with a list adds up amplitudes of repeated
 names, setting components from a vector leaves the vector unchanged

---
 src/fock_state_circuit/state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 5c2a557..2d1c372 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -556,7 +556,6 @@ class State():
         for index, value in enumerate(state_vector):
             # if value is below threshold set to zero
             if np.abs(value)**2 < self._threshold_probability_for_setting_to_zero:
-                state_vector[index] = 0
                 continue
             amplitude = state_vector[index]
             component = self._dict_of_valid_component_names.at_index(index)
@@ -685,6 +684,9 @@ class State():
                         new_comp = comp1 + comp2
                     else:
                         new_comp = comp2 + comp1
+                    # a name can be in the list more than once, in that case the amplitudes add up
+                    if new_comp in new_optical_components:
+                        new_amp = new_optical_components[new_comp]['amplitude'] + new_amp
                     new_optical_components.update({new_comp: {'amplitude': new_amp, 'probability': np.abs(new_amp)**2 }})
             return new_optical_components
         
-- 
2.43.0


From 17bd01341628d49a24e7f0326071594e3c428838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 23/46] fix: reduce ignores traced-out values whose components
 all have amplitude zero

---
 src/fock_state_circuit/collection_of_states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 01da464..27f665f 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -816,6 +816,8 @@ class CollectionOfStates(Plot):
                 cumulative_probability = 0
                 for amplitude_probability in new_optical_components.values():
                     cumulative_probability += np.abs(amplitude_probability['amplitude'])**2
+                if cumulative_probability == 0:
+                    continue
                 scale_factor = math.sqrt((1/cumulative_probability))
                 for component in new_optical_components.keys():
                     new_amplitude = new_optical_components[component]['amplitude'] * scale_factor
-- 
2.43.0


From 9480a728da4e381d49a887ad96f18c50c111ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:45 +0000
Subject: [PATCH 24/46] fix: reduced, extended and copied collections keep the
 threshold and print setting

---
 src/fock_state_circuit/collection_of_states.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 27f665f..e7e45ca 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -605,7 +605,7 @@ class CollectionOfStates(Plot):
             CollectionOfStates: new collection of states with identical values and parameters as the original
         """        
         if empty_template:
-            return CollectionOfStates(self._fock_state_circuit, dict([]))
+            new_collection = CollectionOfStates(self._fock_state_circuit, dict([]))
         else:
             new_selection_of_states = dict([])
             for identifier,state in self._collection_of_states.items():
@@ -613,7 +613,10 @@ class CollectionOfStates(Plot):
                 new_state = state.copy()
                 new_selection_of_states.update({new_state_identifier : new_state})
 
-            return CollectionOfStates(self._fock_state_circuit, new_selection_of_states)
+            new_collection = CollectionOfStates(self._fock_state_circuit, new_selection_of_states)
+        
+        new_collection.print_only_last_measurement = self.print_only_last_measurement
+        return new_collection
               
     
     def generate_allowed_components_names_as_list_of_strings(self) -> list:
@@ -779,7 +782,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = self._length_of_fock_state, 
                                 no_of_optical_channels = len(optical_channels_to_keep), 
                                 no_of_classical_channels= len(classical_channels_to_keep),
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         
         new_collection_of_states = CollectionOfStates(fock_state_circuit=updated_circuit)
@@ -870,7 +874,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = new_length_of_fock_state, 
                                 no_of_optical_channels = self._no_of_optical_channels, 
                                 no_of_classical_channels= self._no_of_classical_channels,
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
@@ -1010,7 +1015,8 @@ class CollectionOfStates(Plot):
         updated_circuit  = NodeList(length_of_fock_state = self._length_of_fock_state, 
                         no_of_optical_channels = self._no_of_optical_channels+extra_optical_channels,
                         no_of_classical_channels= self._no_of_classical_channels+extra_classical_channels,
-                        channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                        channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                        threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                         )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
-- 
2.43.0


From 409a869f8db4597db6138ac56c4ae181170d1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 25/46] fix: a bridge to a circuit without classical channels
 removes the classical values

---
 .../__pycache__/__init__.cpython-312.pyc      | Bin 2527 -> 2445 bytes
 .../__pycache__/circuit.cpython-312.pyc       | Bin 49458 -> 49823 bytes
 .../collection_of_states.cpython-312.pyc      | Bin 66213 -> 66806 bytes
 .../compound_circuit.cpython-312.pyc          | Bin 8836 -> 8754 bytes
 .../__pycache__/state.cpython-312.pyc         | Bin 38651 -> 38490 bytes
 src/fock_state_circuit/circuit.py             |   5 +++++
 .../__pycache__/bridge_nodes.cpython-312.pyc  | Bin 1996 -> 1914 bytes
 .../classical_nodes.cpython-312.pyc           | Bin 5835 -> 5753 bytes
 .../controlled_nodes.cpython-312.pyc          | Bin 7982 -> 7942 bytes
 .../__pycache__/custom_nodes.cpython-312.pyc  | Bin 31925 -> 32662 bytes
 .../measurement_nodes.cpython-312.pyc         | Bin 3302 -> 3220 bytes
 .../__pycache__/optical_nodes.cpython-312.pyc | Bin 30678 -> 30748 bytes
 .../quantum_operator_nodes.cpython-312.pyc    | Bin 9094 -> 9012 bytes
 .../spectral_nodes.cpython-312.pyc            | Bin 13106 -> 13024 bytes
 .../superquantum_nodes.cpython-312.pyc        | Bin 15923 -> 15841 bytes
 .../__pycache__/node_list.cpython-312.pyc     | Bin 11879 -> 11876 bytes
 ...cal_values_component_names.cpython-312.pyc | Bin 33962 -> 34250 bytes
 ...escu_rohrlich_correlations.cpython-312.pyc | Bin 38036 -> 37954 bytes
 ...ir_amplitude_functionality.cpython-312.pyc | Bin 22550 -> 22468 bytes
 .../quantum_operators.cpython-312.pyc         | Bin 18124 -> 18132 bytes
 ...ollection_of_state_columns.cpython-312.pyc | Bin 15264 -> 15182 bytes
 .../column_of_states.cpython-312.pyc          | Bin 48958 -> 48876 bytes
 .../interference_group.cpython-312.pyc        | Bin 57244 -> 57162 bytes
 .../temporal_functions.cpython-312.pyc        | Bin 17212 -> 17130 bytes
 .../__pycache__/draw.cpython-312.pyc          | Bin 52902 -> 52820 bytes
 .../__pycache__/plot.cpython-312.pyc          | Bin 23805 -> 23875 bytes
 26 files changed, 5 insertions(+)

diff --git a/src/fock_state_circuit/__pycache__/__init__.cpython-312.pyc b/src/fock_state_circuit/__pycache__/__init__.cpython-312.pyc
index ffeb2ea6dc3439cde55bbed7d4ea01b8ef21e721..82f720328997eefebee24242ab8744479aeb9d39 100644
GIT binary patch
delta 56
zcmcaF+$+p;nwOW00SK(zzh-UZxx*o+p<k3*kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
KqCYu;vmF5Pa1#Fj

delta 153
zcmeAbzAwyknwOW00SM;hC#G%Wxx-Okm24FgTAW%`9Fvz*X=!O;Y98aCm+DfKS(d7x
zs}PWpnUh&i91|R_5Kxq#m6}{q9OIr@;!&F9oRgoITCD4rS{~pW<CdSC9bA%FlIomU
wlw6uwVrXCxQ(TlBlLi!zF9u1(Cqran;^Q;(GE3s)^$IF~aoFTe7Uiq}0Ouq(7XSbN

diff --git a/src/fock_state_circuit/__pycache__/circuit.cpython-312.pyc b/src/fock_state_circuit/__pycache__/circuit.cpython-312.pyc
index 5a9b6b2a7f1b967b5bd97eac74597dd6a42d4006..a3c7f6c3e3cb060de8fd062b55b0533ce909e346 100644
GIT binary patch
delta 3935
zcmaJ@dr*^C7QgpPzPv*o1d)U{@<<>+ls8gdK?sik#Z}}XQi4i&>6ci=eyP+}YqvO1
zZg<v4yV`bVYe(DSX4h)F(_*`At#+ng%1+7B&Xzygb=uk4Msc_5bRYMANdW)Y{bq9R
z$-U>E^SkGqd(QpsVZoUrf`}VRr3~Qj?I-@@{OA3P5d*UL^c<#t&uET|>C4$U+Bewa
za`(FXd-?{LzI_Ak9Pdq8z6BO}<2Ft~*pA*Po6cY<H%)YqkEPGUAm<S3fk!+dV<`s}
zgQq+~^zK8=FcMW>(xK$?NEn5#?vF&}4fP0>x4>wWU6TZ3Q0oCbO03X81Lh1+fwC*&
z(NKj{k`UAi(CDwD)U1?Mo~ME{9u=!VQ?KaICA=$@*ZF0IZbiFXHJAYa^8^c>yiU1<
zl~_UdHjGG(UYd+XUq7Trla*Se9n+!RlTm0#tr+<#*J~m}7QsZP5U{|xj8_>+G)_V0
zuUMy%M|`5{9drw0XtvU5s9LjZT`ho4GcWOOwFkYAEi_wKuxX)%$NQpn>Vfk+Ycy~J
zzcN{)gZac0=)D>}EJO=6hR_+MoAk?8>ZP$fB8m~OI+5&^4>v(rj6SNhz)~KAwyt`$
z9W{2t-vH>sj`YYpYF3Rj7~rM4F<6FjZ9BrMRB4X%u(KT*F9^`{wiFyj61*EWT_|Mt
zZDHpp)a%55f6!rKBOijDVU5s)xcbt_%y6oB%oJd=LIKjNS##K&N3z=Q;w)Yb7gl37
zFDuAqvmM!dmgQhBhv#zL@^A!M;9i|yrbZQ=%Vs-yuf#qI7!lr-%Wtxb=rC{L`SrX<
zqU7s?D;P>SIkhy0wXnIYnolP^y51Na3duhj*RF&Fu17;n#VH$>A?C4p&WbRgmC=)r
zW}2b}1#BK_vFk*h!f>97i`W8evI@o94X~CNri1^Jn^Qv^Yj1!yvZ5-!kRLV#0b7Xd
z_BANiE)DL(d1JR5R0S&%BgG+^?ajqO4Vsb*g)8f9k+Xph@Mp~t!6U^LT__5#<ETj5
zfLj_qgrgWmv>0KDx2R={OtYXE?j7v!**7xa?q$X{8wF^pBZ^|Wyf1egfiMkabZzpw
zx{8FN?RY=agD&pS!(R01j@0NrJh7nS%Z;mt>38pAM*1C0Ka%t=!t37edQ)LmKn4=>
zepk&E)z9TMaCwbfeA6?{i%A7Ddwog8oFd*IzhS0wrizO%Jl5>p**6Teize&5$>uZJ
z=1dKoBHbU8hrVz;iu#=vuc!a20N0uFfwSrUf|9pJE{<?DTYUxX^95bLf-bImkQ?4R
zSHRp7z%)1H)X8@w=;pwXINzXjz(5J=aE`0yOFMj}9do5v`oNrN%)98kL}hv?u&x>2
zyX~MriXD$KkoqumY4Pd&8>G9HqHotqcWZ?=fpmAY_v-K@gih2t8YkLA{IM6gM<-#m
zSGcD{pdKVMLxc<yGK%c3zraqf*_{mGVQ<U6-#~Z-{rKp2a+O2OUky0HdcWSE3&rkC
zya50-dmv`|Wr>zmIixR8;rKz|HlxC^e3*@f#}c3z9ml){X%6bp{Fo9RL*I^dLJ6uo
z7_I&8fM6Tg4^sf%^MJ~=L6y58tL@S8wlLWSCf@QschE+|N%ZBRJc^-^VmwQ4q?ixz
zDsux9V+<oCyql0Av~|1%?nURu8`S*iA0xBZ32}P=J>CvQgSa-i3cX#2#Sq3J$CJAx
zs^}AzpL<U1M%SM_YH6hW>X>=8*{3$otMh#7yicuMYsY-6%h&3fYjg(y*hJZ>TL2U^
zQ+EK+w4leH`b9!%oU{%GHUf14C&|CJ)CR%YHtODOJxFhYcLT8~=ZNu8BlT5X<F#$`
zO{2c1(Yd-kSXC8OPgJdMpzt4TdP@3*+WgZU3S<omTqX?qsy^Ok5Pe`$*pg%)>7s0D
z)W<4IeH3*~W2!HaeUfIX*V5Oc66*_TrV@+y5l4hS(u4*0xAZbT@h<`T{79T;qdU|}
zaa#qrEC@&ukF|nH;UwKB7yx}#_nJ`o7J6t_$kNkCW7i;RVyzJL2|Tn%xLijeu9<64
z-qB1bLOYHo(IQq9REN$Ul?%oAMx)lMC?iX;VpecLc%DGPAKx0J9vR;;r*WH*vyheJ
za){nM8il5+Bw4(K!lPtm7*|9ewTqw<W620s!A6k6`5ZMN6#|dS6M?3Fm7tWes%2Da
zlyN2=jX$m27R{T(1o!pOp%3CWg-7EiD)^6;g;#LfQiiZ;J&~-M)e<3A!$xkz<Ae$~
zpCC$rOEj*IP=oG29jD?wvLEAv_~(i6>W^6k@`zwM?!z0=*t2$O!HmwFj78r+Ys%y=
z9-o$Dc-5$5a`3=Mjv;oKDni-_sYCe_*P(9ucod2}{>Y(ABxx_;V~m497EmN|^7OA#
z@~`Rslw$WO62D2wpK;&}+6!x_AIZ=_vWg5#WN0FjWp>KfImC7LbGwEvcU(*T%=C%r
zMwYK^3l_m^n67K4I7Omgu9}yp`sAtSbf3%30TIZ}=L)>D$1~v0rCLZt@7>M?$sN!o
z$2eaz)QA)x$P_gS33D@if(Notf@k?Ge4fujR`5ikgW3f>kQF!t#K|5Z=7c;)vjQhX
zSCx@Pv_rHUQqjl}7KW-(x;vCc0IWO^-8eadAB#p`jKb9k<?fZB<CBq;n9Qu%DCX7U
z9^;S@&LJHv#Qua6hLwKqSk8sRkVHH5!VD@%SWythELp}Z31U`1fLRLo^l!sgNW{`C
zbwPeUbT`8nU=?Z@PD6*1uen0}7?tg$+5jsh*TaFEgC2w)m_b0X{|^wkcOq;!1kAh&
z*#Cf{3OmrLCfQvoW#!B6m-BB`c@Pj^wMpRl&!GqdKMaFa-5BAmeeQr*)s5GgPC~jc
z*^I88cqBr&AR6v<GXn?sIke$qORSU`B{EJz1_@c|Oe5&j$*oC>;0@s~$8vr#XNhP~
zJ5ru%rxo~rA{sc=EyAS}xc-bjJ!RA#Yw#P)^9GC0V42CDT{mZ_eWnrpcxs~BZ%8;(
zbh7BIea1RxC_dI05J{xlp})FzzWQ-r_2d4SbbmsoKi=p!RR*NM3J<|0KwF{Kr>Ni*
zMlQ4Bjuv@OXF)kyJY9AuCH>W+mx|8WFI(qQD*ef3e|8PtWrJ3HrDz*m<5OEXwVBJY
z-cf+m^jB>!*|_Wmu4((+x*nf8DG)7J?tlS3h)UzqH*%3>oTBV*zz8v*ue1g(wrft?
z%_+L?yT}pWH?FmofIpTfYs3NuUuoi8d|vO#7p4V<NRrrmAqA}VAmL?fXbx>UTN_>{
zo}7XcdWU#r-Fxor7DX!W`VpcP-wnVJbqn;terD9QAntPwjO-ffX9iKq>x?L98l8UK
z1b^^;^m+z_4c;H#=n%oTy!F5LQE4kd<fHpN)?^f}3giz&e*jfpZh`Nj>C1Pa5IuV(
z6+c-nUdc)z(u@>WI_5LN-6e$Y?1*s5=%*_mrtA^YDt~@$KtPzq+`Iry7+k9oEK6d-
z-gcmG-cC7G2k8QTN=86Hn8o6<08JPyS5^rFVxE_P<h&)^yYX~81-8Hr=(o3B+v+c`
zz9rsBuk%+t91!4fv9e~i?`lkd#ys9{gPm}RtOp*4pb@r0e{G|`w&9leXOMmf@13o_
zG8Pb+$-l))Yk(#UF<bs#-IclkFBOo0?A$loUu$2I@~eB0_nnU+?S1SI2|`$fPS5tj
S&FEjVS<=lB(7?pu!~YlBTP;@r

delta 3652
zcmahLX>e1=dB68`OSXh1Biq9G5XJ{S!6&}4Y)iJW4NeFF8GOhwlEF4l;xIe~0u3P(
zw{iF;)0U7XY0}JO@BrzXCLu?Ykfx!elge?Xs7y+nA8ne+lo6O_pvR=UPnID)cjoPW
zyZhbWx8L`kd6@s{5kCIIxHui5<I+!t9;m<la=ce}Xku`!`(FQ$;CGMioT#d*EUR#L
zjSe{k@7|&Gg7oek-ksiYzq{wY^lo9yH#8XVyIZ{h=bnM4onxaz{({b-eces&ma)N+
zo<M(KsL3k~?(qgnii_QTVbJ{mJ>TwU7uyG;H|~YCaD3v5vVUMqdO^3c1eQu4R!;#4
z=&n6c8Za{z*$|bdAqw4f#>LJ?+=K}HFbS$h^YB`2YPn71JX|s*2r5Ly|DjM)T(w7$
zLV^e_tMRi&9d51DK_Wi1&x{jw7O=|DGmUNdRb4kE<43I-IB?vI<Mqjqitp}CQ3Va6
z-j~KeotvXV<AU*l3^X1{#jom3_;QB@jSVKqrhF_|+F-uJQEME@p{nl|0Y7SJha7z3
z`9v&g>{w!n8cWFJRs|7>Pu2kdpKZJsH@?VZYtXdr4JeRx`)u9PMV=-ed__zZEN`L~
zIV||uIwk(P$+(D-fb;Y;(J}QcTlB{J2$8kd1x-|9nao+;Y=Md>w`N;vRZJ_<8gu;t
z=Hw(%<BM8%q&ay(&e`T}9)vG3y{<%B)1m{Y#=6!LsHM!7;bd#$zX<>6F5xC$4lZ*(
zhJzhueBIfp@T@$=q0?nwh{++BWx@Y?W6}ayUU1cd4rZKnS=6CBUPBr=b++v1%}g78
zPE7Y;KHF#HF769BBIb)A7M!M0WFx4F`CjIdCvyogDtx<5XD<{BJ^6B)6;Y@_hKd9F
zC@oD|61Y2C^!Sf<gObwtm=jW#?<InYk`>BiC8HJ!7s>Eyk$HfopMG`pjw;c}_Szz`
zL@cJaa@yg^4y&A0W_-URX)(NQP>eO}tKv!)%_<d3F}>5m1<UZ<dTVOASn6wu>3C-i
zR)`Q~tO!<$<#?@g>4{D)xR_vITbprpj3toKswfI>>#TxyhGVXpUUTPOte{G_;I;L(
zC<kS9pV^tU04?ikkJ2q!J6(1cU8Qe5<A%?4#Yas_t(-28-P3qzdPqPU)7n#kSG#hd
zQqpv9(s8*Qj%`Vl9^G;Ts9y~376renf4{WBU8PX<QW9YsPW7cgAD-^Zf&rZAO9T&o
z(KiQgOBegIVDn8KF_}Z=tXbpAX?v)!X*SRCvC$FET=9f)F0<lIK2*~=TiF$=><(pa
zphp?y=XTFzRD}%7!^VskdP2E%vsv{Y8|z~Pufc0vD6@LXC?yZ>0zRC)27ln$o7@*6
z<RG+hA#=_=A(nQI?&IjJ!|T3esbT0H9#Rmz&uV6}212IHn<~8M-Kk!a66b+PC0-w~
z<2GNfDzs_$Y@Q%p^1Z^XI>?a~U2yxx07vYdbk&ipjo?q97XL0@J6xmsgIc=-6n`wz
z?odgmcRdc^#p<zC)fjWhIBpwz99pDnV{3VnkDZLLX(yXTvC@APwn^4NCcs8%?Vc9_
z_TuMzzvK-8Ggd#JDt*1r2)O6K(ge}y(VSYW$3OzBuzsQp^6|N6&3Jsm09t&K?u+Em
zUY&@C3H<ZK)=YKmp@|9GO;n^j?kAIT`}zCHKClzO_z7!Ll>0DHti{4evCc@R54e<Y
z0{?QT6bldMrU~rX=5oS&bP+yeaFU>4aDYuCxchK7jN^sF?RwevgY5K@l={$SP>oVj
zzg;?bL=9lWqeq8v{^-N2TDY(&`Ld~C##C_GR61iSz395!F*?&RN@Lc*Il1eEl)Jc_
zge+;pm%j64T7^yPq){TK@{p$N_IwwRq#o|}jTDl-9&SaFu=nBILzJg;!)2#$#_6M6
zL~t-JtD9LGl(cYD+TWTA{(h4q`6IkPk1F_X%5s-M^<JLAm7x1&e4@+BeW1;0Q*jr$
zytYi;udI1(yz-LD+Lopi8Y%i9vo|)>6yWJM-$AYWK9zMiE`YjYNoK1^H`^CFDpSIz
zWF?6U(hgIz6kk5J3KaPJV;MYcpE%WIq5VdW>5pjC%AktAYa<KeN={UY{IudUlR$^u
zJJj@rsvM;E1g)J~T1mCZcx}IxwX4E~-l7*Z4)VBRkQ*k0Trbs-Hcy>sV1@1pZc?jY
z-IJx)=Z`EiiE1$}mLasInz7`$W!PP(a}Ps+5y(T-$Ew2tCFN!e*cNXzu^XyU+=7Ot
z;1V%jG%<3~C@!g?>!gu(3#KcDX$55U&WQVtr}A9TAU%KF!P|^-8eK7O|M%Y*yzyA4
zQrJUDv0>7gA-^6uyC&#SZh}xm7dbKl6D6!eY4VbSy-hs&U180uEbYc=AP$pAJ~5<+
z^x2=<%Pv|zv3JfG(&s9wLx%KE45eXv#btZVjJ;;oUMIP~*8u%DtR!;__*InAg)D<3
zLnC}4v!~O4PJx_g3h)obd$?f;g2;P#W-$Fj;ynr(QjYpX@F?XbmyK7)9hhFD#e-8i
zP|=oWtyalcYEkWxA&+{bf@%+wwz~@QqRWo}bLzrhm`tB`hdw5m{&z(sYiYB@&yQKU
zMFq_&Zd&`TtkMLv0UF!r5Fr*-k6u<)A!<bJ16&UgH9;K}srNt%p%Hgd<7C09|3h$8
z?27*?mZnW~_~Kb&RBJ@tVn*sF+o+AYsBl`V?ru!Fn36{zTFY_`QsBgXwU+*>5@9Qy
z@NYjH(DGMQyZQrycR!At?B+Fs7k_@zidRnF19~iaDh+#{x<|qOCvf_yUe(tuSzbir
zsa)>ScI-GcSsYQRwc8-v)Oxw;!I`E9!^zp<<+<U!#)z6Y;1J9cg#!|13=JVeZfI4*
zO%vLl&IcVjpRP^KEC?4iQ#=<fKorjfOJ_`ukf|V4<hZHBb5C2^6LoQY5J@75D?`~e
zA#-iWP<tzq4OHN#3AWHO_iRFM$k6*&zk%v^L1}d;$S)LejwQTsiymAt?CKvG+P-Jh
z8|W7%B-M{j@HRb*wP=>-1oq=deYbFi(sQk`d-hJIU^2y{zH=`n{&<r?B|olRxckg<
z@Zr=MLB%8q-=OAf9z>)yXLA5tlKb2i75q$k^_3ZJrA!d*WeoExI^`;&Pf~u3wB{1w
zI-WV-4R7K%=Wo$Ozx8?+?T^df$WLR~f}Xxj;WrGr%_g~#AcIz*_l@`MeudH)E^CeO
z445k}jVKuqQIWKgc{KxX_;ACU_Cqb8EDzgrB0K};s%j%j22i}(Mu@0oSVJ;P=e06;
z4@Wk^76^CtT)Zz_-*jDFt6ULo*cjpII@j3z&fvSr5haBwy$iO&JiCuHaHIn^K)AId
z+}eI!y#bVUl=hvb^Ai!ifbHfQ9T6o1nArNao#&kq87rb8g~ew#zqEN?E8p(G^tV0$
dwe+XA(iGr8&4qs0h`tN?+KusG6H=-1{{&6N*-HQb

diff --git a/src/fock_state_circuit/__pycache__/collection_of_states.cpython-312.pyc b/src/fock_state_circuit/__pycache__/collection_of_states.cpython-312.pyc
index 820e8f12f79b2cdefba79c1feb45e1d4a8fc350d..c4ecc7d46d7713d18a7aeb42f9081cf0bdea3c88 100644
GIT binary patch
delta 3622
zcma)<dsLKV9>?G3op;`ufw|yZ6b3;+M1~abg09KhqG(Fs5zAWfG7dANISyd&43;=!
zc2$c`)Gx(*dRjMGIi<aO5={@}wx*)VfC&zmZdrM28!lGVmizqPX^gG@*ynIQ&+oau
z&*l63J;UDTxNkOc+GdR=ilHg^;vLsR`d75EWYsGpQy-K$7zc54C32dxZoW)Wq96>l
zWo~7eszfE(oI9#4x+Ge%<!*JErbJVwEzuH&W$tGj{IiTh;Z*IH;p_}kqC2?x{y!&<
z&k~#~E3!O-J!@%&eTCKIwRxRZ`*Oivx!juty9W&h`}}lb5Ub}~STa|9cfkpkJS_Sb
z&m+Vpwpl9(Sqjr^y`&uW*iBGax{Ex9)~oj2#4GNx$FSsa@f~M7A?w5!mN{9nQ4B4=
zha;QBq2+ZP`74|d-eEVh&|Mb?;OQZU;Cb&N!a`uhFxh0E3NpP#a+Ocz!<yuT$zD@<
z^$g=v>?dK{L#o&N6s{rguU0ebSHO|VX{y5<<70h{RVVVR*2qW<JiR(IW&-UW<Vq_l
z+(FJ>v2ryuu1;Zv1o&k2LH-z>%rgcyRaFr+#H`7RQoO0&qkcmh&}YKS<>`q(7hCn2
zeNjw|v1a;9YdT^RUXR)uwOw5!hs|qJlH=5>oRFDG8@+)$uS~h3)b{sSm~pd-M^3+c
zP(Pg)FRnQzBbUY6C;cqx6-`f1B*YG6ml15wq>-P*4bM!H5eFQ9zLY4$5$kuzQkK(^
zLL4Fik%-7gj6#%9z||KTNu2nX7pu5rH!WKf!tV_V_lNsx{A9Fvti~!QC6KWBD48k-
zH{VO5O6cxu86OdnAaP4B?`O*&_sXI8b%R{yV_ZCR7aQQdONqKk46~4B7(eHiJBTY9
z#>_G3xX3;Dd7s>+iQGcdr6DrjrvUBNF>2X<ItY`W^}(K_CasUPD#JDOB3W_f)*_ad
zR<DBX+lOV~#)KpUUbjUlB%{5KBB(8QK5n&FxZO^>cX>rQoZD_T;8aOJCm|KPmcU1)
zu^D*B57RGu-k^2sm~K6zHg_dt9pKutX9luoo=H6^G^e*EJh*W-Oxdv{EipUN(o$e+
zODNqi`%2EF_MCZvoOv6x=apkSbO|lW1o7aGPYEd(U)yy?NuCAUn`f!Ov-WKyWT$wz
zuAd_S;#<#=z2c;|KT_%!;F{$^MP<1oD6^G%gk2EVkU+M;#D?|cb!cpeCp)3DA&oSN
z?BUA<&g@c=3*yZq%><O!2dCG|_M>=c^2-NEUtT}((0NJvL*e_QBOv;EikNpSiH+X=
z^Gyx%>tV?;6Fk+}%hixY8d%ljRr}%`nic8voJjRlxX~0+dnbm!!Z5Bs;HAdv9Y&O0
z<Z6H2K2Gm24QzJ|-og8ac_&9^@$tT4^+WF7dXkTK{SoJd<m0C38d4p@F_gPFxOsdy
zM;r4{HBfcDl1zorag!478<S}G#|b(49)c%dQp$xxv_@!vic^XFVQK~~@bB@K*g7I$
zz!aWG%tEY3Y=gQ}!^c&l`A@_N1j<m@NO4`VHej&|Avu+FSq3<$F@XN`u%TEKqzR-h
zC$V^nqK*w3X<(#Yd)h!!pz?HPv=Q4>2s6BOIyZF>n)@h%T$#=LXpr+fCU_-(4JsW@
z=SnI1Jay3+D-5BXEXiSkzk{PhL?hhOJeRx#Yn#)xxcVSpURhS^6oeD-_vXDuX`yP5
z-R5>$m)h*!3PE@o%Fb-!zd*HL0Oi?EeMjM(_QExR!Zm#=d3?$SU7uFGb#^Y1C976I
z-Z@d$%NXI?b4BVa2Ft$URzqfoacCDzZ`qsLH7fh<qPn66OH2Ozz`Z4HqZV{!j(xkV
zuB>5J%Zx>V+{JB~R`^d#rv5^VtH)y0tRSIyIw=Vi5IELf@?d|@JeDz5kp52%LVwRF
zCUz0&@8Ou_2iX2#T4jIF1SWkg@nq0ly{}9v)+mq5l8W`p6T{WTL--G4RK-L256ueX
z*x2IasIwWm;xzawFd7zosbXt57}5IL6dIG%bo{Rpb&80yuwGrH(Z|-yBQo~Od@|P{
zs<k{C<Vl-}@Gz-uG5W<w*xELaxZvxy`d6EbknL0ImXpXZ!c@CCXgVJ&le;p2>^DK^
zya}vxrG9Gf$jGN$nW%9hfAuRPEO}4)n-)5JEd96vrdSoJ4xYM<#+wrv?34L4^@_VL
zqopgIh||SseO$dVQcuutGU($blN{Bg8T!k3*JSh}aqq{oWC`!nYT*OKX+$&PEX8a~
zq7Vb>+X+hsNERD0&<=QH(7D6fAB@&C1WHwS50QkBg7jU#3A<4M8^VqPYcCEne~#r=
zL>nRnF&uFj4qdeHl4E`bUtBC#JVbw%c+yx{5G?+!bk$JxZ9en|^`sZnoufzrOzN}`
zYSbLoyr*l)ocVFgtdNG+6u_IE$)nrz9DzJXTi(*H+&?uI9WFXKqP@T#D6qHXI=ZGz
zZ7e%nc5-@q;j%#CvbHIYLa;NP##>p}=L*9%T-V+G%(g@eyWxk=yyS1N^6C)+;ys^d
zvlyS*TwYxIWiH`1GA=FDTr)*SR44Zif&<s$pmjw&T)j4uXsK3=TC0LiEG0U?h*jd$
z>kpA|G~ROKK5_#(ZcHZ+K;q4E)@8vv)c%k5ieTH#Y_-=CnTBdG9HP|&L-4QLll2bG
zz;=h0>dovkJEE{wTKi9*3{Ip!p3ZnjN2aE6+gz`Uh|M1l<+ldIgj+i0Eh%8faPZ?T
zDPWJoWkU6>N-`b;HZhB_UtQ%B-=z}?M-WFTJRAjmm)C_K<wh{~<?~nQMGH;f=zD|@
zixl4PGmMeK?A^l;i|KB_{YAqTBFSgAB_8CrQ&WFW!;*3faS4+UFGA7n1YXi=fJ$-*
z_-|`+da$Jz(T8Y6+*N7N=zPK}*sS(PZRO=ow{?}xUFq})i=grL!s*v&*Psf2gSc&_
zPPgy^4!wwwc5oT3PDB?)Fsj1sh>X90wU-c|!IE!^`43R=Pr;#Yj_5n`XSU~i0{I>q
zs)w3ss8)+r-<k*&d(C%+#0i(an`&&Iu_Q2KN!yIlma+DajgF8`F~|uS{S*Gba4q!z
zk@ScM`u7uZ3KssbfQ*BkKgNnJKU5K(C3H<PnDb*H$)&Xq8zo2hkgk-THa?Ry+XjlC
zc06gt)!PtG#C*guL_Fd#gctE7LOSwi(TYWw5w(b&h^vU}h;GCk1cwWu|J5*cjF5&E
zsR-#+MM!Su83iNnh^8dDuBCWhh{3#MaWCfG`SA6f3ZqG$xO;qvp;^oLnZ1~YvNu(d
zM{?XmuG{B5Fs*KNh(Wt!RQ3Tw-K>xd3s+2Wy>c|V7s_(wx~6Hp49&XN))GRJvdVC%
zJ;Y$%kuf?XL*q(D<~~oIB_zi}h-U`J^(xTpSzJ4Z5MyFY_yme@4+V&G6hS$C$5*Zv
w_SE_bX(ig)IV_1a8R?$sALGfS2+8O-JDKR(DwdcBJrP5UTa33E%%wy5FCRE6^8f$<

delta 3360
zcmZve4OA0X7RTo%lOcqJC`tIP1V4cACB>@MTECF>qf}AE4-7;|;u;9VPJ&%AthU`+
zv~;VzZP8O}?VjUSR?k*Dwafa2qN}TDOGJT2-P)ekJ?(Zif~}>x+kJNs>z>nha(?f=
z`zG(*dG|ke=KGEOt{3^pcAZYcv36sgW5plzTOwnjW=rbGr+5eFP`FjqLWuwzvz6|!
zYITWPwt07WwWdTP+bVZNwYEfCtt-(1r{HFC4&is4Bh0DZqoh?it|W5*j+sl=ZLm+Y
z7JHqd*IMIVGhxExW5-+P)i`H}uGLO+mbq}H%k5g_wH7Tl7mA)rr`_kZ&UE=^)mG%W
zJvB~m)?DYag?ZLrdF)k1zH*;4&n4PxUA{+ia;#p_Ze79rHZM)s>;p4ayT|Qj%eXu>
zHqQ#17jw)ij9HovQPT9K76r_g+{;cWpjaAHRt&IQ+Gz6tII(|uA5`PJ6(&?v?0{9w
zIsjf8OK$sJfYs7UXE(q)Y3i??3TTl2=*r;Xb?HKNGY`AaFMa?!q|sh2z#*LEE5+d#
zP1ssx#C@%5el;iN<3V51!_HyM361%_n1PexIDgn47_hz2_!h3L%?m%mbAE-NvxQ3^
z)~;289&^@Y4}FAPB#vVU@)aJBI~a|}wb5bX404<CwKe;N!)zVz<2bvn4kGYm-Du3M
znHzpv!woTR&VOYs=B*u`91{^fHWbUHWHs;?)x)o;Bl~+(xiNFWt76OSkIL6b8`d6C
z!c}R;x_SlNlG>gd4^V+WK0gueNn>A_paeU5HdKI0y0Brp5>}#TQ=$;$?VeR@aPy{C
zh>;3kuH%!d*lLzAaV5nTN05UbMph=ljsJSJ9x^1?W}6D!c;=16Fjd;{=0wosvU_Oa
z{2(UbyG}EH)0D^;aXuC9-)8^?PV0=u;6IWgCUBfp!EyD<dLEZ=jX_Jp0z9*IWVm7v
z^HP%%w>_;8<S^9ec`GT(&77i{frXV!_IkYcYF3y?{<;{Pw%L$DH?ffY-@AqR)^oR_
zIBonD!>FB(?v%-al*uRgV+&5GI}Nitw6igF`*MRZWpJuv>f%nrk`C<>T<@%uV&47@
zfJ@rE<D42^z|!~5gD7R}-UzT&I?&wD!)y5dpI?NX(%APuR_Bzky@D#yQ(NN*D$6Up
z;@jj9s>^-VweEp{bprv*iEhF%Eib_iJk*jPY^TtZDRjKq5($T-|F(Pv8hWnjDeQAd
z|2)_ZX?vA>cs69MUga|kSWI-Pz5Jl;>IJ`0X~N^3iKsm?3Ye~{3`)TkA<a6Hq0n{T
zKkA|NQN9F917d5RqVyVWI_5*o@ldQk%3-7&v))9#BYL|~pX3{lWo-#CffmD8+Dz)k
zFPNx>%86(`VbYNt<i<Qt;^($_ywO&R``eOKo1rntOV6D+rGoEp)|pq-y!a8jQv3^E
zJu@t^g_+GD(mjeV5@r)N5Vqm;vm?g5Oy&u~Ndl=sY+(3WwqBxP9YH=!`RomtJlcSJ
z&L){?D9Q`Smz<*EY5eSLHkdK8Jv$<t9PtDr&TOA#+DYbn3_+fyYh{r4J|p^Y%bobB
z<bjOsrwcwH9L3J|1<;5o=h7l6x}Z=~TV3H4#gk|~x63F8qV?L#-A>zza=XtXioZwG
z`8R~mNsb@lzVnyEZ-?;-!yELswbI)kF92m)xD|Upk(9k$6z=YL8oopb?278i9NRJO
zsX%5yPxknZ$L9sI3-N3qd)=iWm7!5lx+(}|a%oecJGCf~TGTM(qIP7DWm>moVZgGm
z)3S&hDLq;F-C4FkmW@W~JsEl38Os70%V?C=lRKw7*A>Wh(P;ETb6wiB(0pJaL1-ax
z;rjmGc?!<xf&MQHVt;RX0T){e{k=Sw{FI_Um{Qx{o6DvB7QE@~B#x`ig+_Io(p(s)
zJ{7Ai944Grg%^$xPV2*nsj-D=n)9*x!Ys9%%wR0$d>V`07j&qt3|I6j@#cls)0mbA
zHLmdK*s5~#EB2}$Xk6)6R_d9?r=hRP!26XpHO5^mQ<Q#*YcCdq6$2Od8eK4WIdF|-
zOs=ZR6rA5>f;3Vw2-tclMyaaIBws@I;5I+^4uL6O=X(@4b|t_VS@|tpdUfM<wv@8+
zF${E>!bv}J!*{!)=_MiQx@RjBjxnFuM)*77456K2t|bwl2_`LiNP9G8BK%xa<q|6^
zH<~8$2=smt4-(9T2ZA5a|9x?Xf=TgT(DWyS4#IH42*MS#T($`E!*mUoT&@W#P%<^%
z13Z6u{sTE`Fz3o5=*5?=WI`T(c*P#kkv;9wkm(_vpv%LwtI1J4lcse~Dh^C4?wOp|
zJ$Y$h@={!VH4QFF?_B*V%&?7idJx=PON96iHhtxTX4GCk2%DtS*K-u|lgIYv`VOij
z#n+P{g(Y?{;VPe=&B%=vHDNG=RMfDwa~N*@W)vPcY#8DfY;=fn+sIWKDLqo(H^rbR
z?ZJX?r@%+p_-#Hsi5I@DiTpn$Ou@>3=OnQ5roCV0baI)CWXX>A$2&A}`2OLzlqxGb
z9BAC?vkdOy7yR*i^@DGu`UF<%GHBPhguO!s!(>8h;W<|Fs5WNGwUJUNH|7~F*Tz5H
zsD&JwgIH<Y%`b%!2iUy$SHd9%FCB&1Y+f&pB-c@fx+(H&q44`mp_?6?*ox18zj)3u
znkJD2b*>th&sFZWtuA-hItPm0gCsnx5c<ahMOr`>##~Drj<_>&<S%KGPDU&sOdxE+
zsymP1?Vur5)}tkHpfKK~xe(zNfg--IKs<LRUc*k33&z$spS5A&juH7ErsRJ`u5fa>
z%PX92aU=buiy+JX3RyjbPZ@$5kJ~YDYhJOFyg|Y>Z1`cmaEL@)il6;(kTjea&q^w3
zcn03=4=^1c|FHndF!Jv7h>l$AC1YtwA2zfM9e2n5Qf)nY_eu7RbnosSfYZ49Kg+-(
z@&A1dgr8_T4!8eQ0J-?}Pm7G($niG@c7%$7ZrdA0uzg(_O)Muk2uleo2nmE|2tL9(
zg8U8h0$H&HDkb8Z1o{#XKPOx#+#uW|0Q;H}d4^_AOd*G?5IJ!K4Sn@_M>lx^BvX<~
z-!Z>9#8F>T)<^xV=}k{4z!MXtS_(TK3vtwUJT|LOHbUu5M-{MmtP527-M)Q!&1*s&
z**%##`wY#qLrNN4GsX3($hfsg`GiV;EU%Aa-7SC993_~oZu+Y|#8Kaqo)uD(aV<T2
zx3}36QqdqJaM5vnVPy7Nm0>DlUlhZ@z0e(4^y1TWUvmiO8G<VIW?i*L+}YHwgbNVS
lw1bD(sG;l#*pKsOFocu<(A3UD{7}yjFm5$|$5AgY`aihV>~a7A

diff --git a/src/fock_state_circuit/__pycache__/compound_circuit.cpython-312.pyc b/src/fock_state_circuit/__pycache__/compound_circuit.cpython-312.pyc
index be2345157f06919d6aec37e7563e83365c4b34e1..f14499b9056277d731ef171f2347823203a58e7f 100644
GIT binary patch
delta 57
zcmZp1-Q>b^nwOW00SK(zzh-UZS;-@3pkI_)kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
LqQ6;{H(nF~2s0An

delta 154
zcmdnw(&EZ<nwOW00SFY7<kB|stmLV0O16p#Elw>ej>*fZw6wG^HIMPnOLZyAEK60;
zRS3w)%*iY$jtLG|2q?<WN=+^)j&aW{@hDAl&dJY9E!Oo*Ee~*xam!E64lYS7Np;RF
rN-oVTF*GoUDK1KmNdt<<7lS0?lOZxO$@#ej`K5U&P=U>lcmhNLm|izM

diff --git a/src/fock_state_circuit/__pycache__/state.cpython-312.pyc b/src/fock_state_circuit/__pycache__/state.cpython-312.pyc
index b1ae33848efd82177ef2e67a7aca753013e8347f..908851dd30ea923dd69ab7b7da824f80d630095f 100644
GIT binary patch
delta 1318
zcmXw&X-peO6o7a303R5~7;H{2cEVwfP$g8wNg5g&HO*DpLL@_>9BUIGfYI9EnA#jY
z5}=%Y5=s?PIZacf<|uU2mOn&9s#KyV(r%H8g{Z`js(;!lE<`<l&>1Hg?SAv-y*F=W
z-kbUF7QKFxPJE!#X(-$tjPA5IUS3E{w_9>bM0dBR#48FVEgs=qgV)#Ob2kWWqR`Xk
zE0HeQM_$mV@e~IC+poeAzZFh3$#B=p1M4suxiqZ5fiQ4$#m#ad2IN8$-L8ha%{*eC
z4gPHA)ohRz_XnAFEm#B|?t7C-1UM@kNMUZ!Pa;%N0*xqv3DF@0vaplAu5!8E-GZk(
zAU0wb@dyD&kc469;E^lEV(fDJpKiR#+tAeDY7=~-7TdkV6CCbrq=#B}ziFei?Ay}|
zr<eD9UvRHLKHaQT2&<(o;9L4NG1sMxqZSR^?lMW6Eg!^Xj+1rt1P2H%V%X!wbRti{
zQ0E>r30FJK(o(09L$jcqNkgx|ui`!w0E@SZL1RVG?;SVLvveDJmLf!ry#txP3^j8I
zhY7HDPI}4Lir`jHp?QJ?jvdfOR#J(%L@^7Gdfv_Y9E*e0<3!403)?O`WmWn{W=^<c
zHFN(K6%P}=Ik41Q8Ly95x1s1RF#3zpD6ZA9gh^(S6__@h*7|f9_1n#LI3yEff-KNu
znJg7TAtuBI5zL=VhVYP9olQ}AO#9UEx8FhASa?{-!*?fns5*Ze5oH$efuV$_Wnx2&
zpMr4U7c>qR`*_`YTyIlHkJ~FA#`}dkeJcZHxU${`d_e}OsESHVnyekEl~aopUGXp-
z$;^^fX%T1bnzK=HHm*9G|DsT0J5oxk=a0+f)e%E(IHVY!Urb(ev?`9)9}KNghSI0X
z=_N{HNi^m=O#cz<H*@mlYOdB?duxkA>PjRhSR)BppC#>^GhH>w`7bV>Q}R!&T2HRL
zp;%v267ZK5Wr*WuVev3KsTtA8#ymxp|Fc#HhTy#MpKUAIN$gf!=Z}`h2{g=iB}*H@
zH9F-wKHR#><7;(`4IV)pz(a8kRtB8tb;&yT6N6f$o%hP<q)&)}WMZB3^!VJOxB$m5
zR3t58O`o=kJhZ(ry&tYzaML$g`0b2M%DtFE!`V@%o^#RUafK3s=qOcR2cM3-oTd#j
zy_AR<)DqhhkD#iLf`Sk0xwlzrtW&BO9pqA`u~qzvKq9z9@HMPW*2TR~3UWnqOqHVy
zt*#F#yRxUasX)Y>9nMh9#Zzo#cm5Wo2AD3kY?^s_w?i>IBDS){RK-@Yd{D7f%5T;v
zwwg=vV3;n_8P$e96y->yXeykT-YeyOG=PrXBMY7<*iA4@z!S_6#1a!G(ia3@5`05I
zk|lmjK$0ZhmwpEuotnhy7ptQb?v{Pqq}$Fnar)?UkT;W`dXOu)<a<ovPAnvI$dkvf
q^ctL<IhDRjG%>XuOaH14b$VPq9qz;8kMMAY*9SDHV2dJ*IsFd@DUEdi

delta 1472
zcmXw(drVVT9LLYO?QKh;w1P+x8MTN~1$?bM4ACe!e2Xxc(P}NXSGZbRIQJGPww7rm
z=$Hk6a~kJ1%*?ioEz;d>YPKbe#JOz$wCVyOTe4+|*^(`(k7UvPv7J-d$-SR*&iD7r
z?{V(Qo&A{m=Mygb2b0N&=qUS0I{fA3c=kd^v{zW?YL!JIyZpXTZEcOS+O^v+HV~;t
zv{l%eIwhafCA(T)u{Dvv5m8WNSEHnC3AWe!0)A1h*d_Kh)w^B_2uE8Kk0RDfL<maC
z>Q$>;G7(&dsqU7U!7V(uxYE1IuF$N(?UwwK+Un@9HkxTo8u~uI2Iii{@a#|me)lYz
z-+*G8m^Q`>+72Xe2bLlf(ZK4ktu`%cBqkaVa&gq4jqqV@m<Mjys6~P%!bh~D+;ACP
zQwz0fyt*rV1iJh3;rhUQsB1T2J;ZAku-$yGUP9wE3L6o9SWni5b#SPC0ld?m31$9V
z_^N#m6dcI}tB_?CI6Rl2mli<Ra|ysM{A(kJXb7^AV%Fdl#V#Sx6(T&-awr@I*yzo3
z8jiV%C<lECS;j17%sbaF_RbxZM|OMMUP(|$Cbh`4Lu9krK=In}cDUd@(Kyp_bh@KE
z+0mV%X1s-ah)^fq%KeRya~nrB%EW$Qa_^mk-yFQRxpmsvc1yVFnZy&Gn>a4~=xlqE
z_5p`@qT=aq&bFt|_i_=<^mSpw2IG{`x;fJ_WjAf+ty3#?bbXs=RO8}XI(!ax`WE6C
zbo!RSs4tfzZ>U#&3wZoCGz}COnlM5ak%GZ9lnZ}$Tk#3tNsCG6<-$0usiP@|SHpht
zdV%H&C*g7G%?3up16ma3!sv(vk~O&*TILzz9Xhp0?!=gbSCy4CXI#mndG07D@dRuO
z7GeV&4whytT{e<+sWoXSfwRFT{X9d4gi|^2Yp?>l=!I&8;<Fhb_1LrNCnhh@LbP61
z2&BTrRxkH|2~<rd9j*#<iXMvni{L>|5#OpsbGuEw*Xf;MdUoGQxYGBa@*J&^u**x<
zQS5RUiJfh142u}nQ_SiGS@L)IM7SRMPFG87kn14QUld)n=7u3|P>qiepV5MoS>;1p
z6Zz#c<|ShXlIFD&-svhaStZ^zi!;?V2}|kNv83h2pPbb<_Qm&2V)X!%j^4Gb`NgvM
zTJr~OSKAWh8z)yJ%Xi%?-JRIeoGfilTIjPlmC3?C$wpb(v8ppwiJX!#A(`X22hQW~
z@ni+9Q2pchUtHe%tX4xn=@f}OAdo1l|3i4VBkz2)9yhBE(VsQAQ?;L};d0((wsdcN
zAgG9hd<wqPn{sYZxj!@gBdAR4A(%WZa_6*gxz(<29n9nKAh?IN)2}i<RDgHF?V)<;
zI=h$OtwqBJ)l+8%_`LHhw94=q!{-cNfHmgQ4YHGqs{OGIxX@tg$4QHAgdYjb<lDvy
zllc`R+L@BFM@R?vM=GFrwA^IU&FjZ0p1IP?@Y+bFIyf4|jZ-XQA43Vl5JNG;MTT@|
zSJ`TuVS?cX1M8MtW?)^C@6{b(=d8KB`R2<hM5jsRF`FJQ&*#mlH86Og%v!@Qzoa}t
zbV{Fc`ZwUvlWXwpg&hm;vncHFiG$*qq3&3~8}y0m$uyL|S#0hz;^mJJW7_FIq-DUL

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index d577e80..512a53e 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -565,6 +565,11 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 collection_of_states_reshaped.reduce(optical_channels_to_keep=optical_to_keep)
             if new_classical > self._no_of_classical_channels:
                 collection_of_states_reshaped.extend(extra_classical_channels=(new_classical - self._no_of_classical_channels))
+            elif new_classical == 0:
+                # reduce() interprets an empty list of channels as 'keep all channels'
+                for state in collection_of_states_reshaped:
+                    state.state['classical_channel_values'] = []
+                collection_of_states_reshaped._no_of_classical_channels = 0
             elif new_classical < self._no_of_classical_channels:
                 classical_to_keep = [channel for channel in range(new_classical)]
                 collection_of_states_reshaped.reduce(classical_channels_to_keep=classical_to_keep)
diff --git a/src/fock_state_circuit/nodes/__pycache__/bridge_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/bridge_nodes.cpython-312.pyc
index 23ce811955a44e9890f85bdbb6a1d6de89fda3ea..6a2d5d22d03273b8ba0a813c0de06b0249b52760 100644
GIT binary patch
delta 63
zcmX@Z|BH|3G%qg~0}xobf6dy+<IAdIq+gU;kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
RqMw(al3J|4`8?}iMgW4B79aos

delta 154
zcmeyxcZQ$mG%qg~0}yl^iA~$c<I7s#l57<dTAW%`9Fvz*X=!O;Y98aCm+DfKS(d7x
zs}PWpnUh&i91|R_5Kxq#m6}{q9OIr@;!&F9oRgoITCD4rS{~pW<CdSC9bA%FlIomU
xlw6uwVrXCxQ(TlBlLi!zF9u1(Cqran^72zsi(`_CGE>r1<MZ-2x3PX<1OP1_I8guq

diff --git a/src/fock_state_circuit/nodes/__pycache__/classical_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/classical_nodes.cpython-312.pyc
index 97c228b34e8737aba8ff5e3629863da55ff375f2..e94150616d7b25e3b32c7060d1fff30bfb5b7e0f 100644
GIT binary patch
delta 63
zcmX@D`%{PKG%qg~0}xobf6dy+W6Psrs$Y~^kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
RqMw(al3J|4c|Q*i7XXb*6=MJZ

delta 154
zcmeyVb6S_@G%qg~0}#|6iA~$cW6M+Do@^BpTAW%`9Fvz*X=!O;Y98aCm+DfKS(d7x
zs}PWpnUh&i91|R_5Kxq#m6}{q9OIr@;!&F9oRgoITCD4rS{~pW<CdSC9bA%FlIomU
xlw6uwVrXCxQ(TlBlLi!zF9u1(Cqran^72zsi(`^=5{rv7lM{0`m+>%j0RTjkH;(`S

diff --git a/src/fock_state_circuit/nodes/__pycache__/controlled_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/controlled_nodes.cpython-312.pyc
index b56431ce6016ab96d755073939be172b3f88548f..f28539f27e61a448719dd46abb869727ab518780 100644
GIT binary patch
delta 447
zcmZ2y*Jj6enwOW00SH2?{%476Y~*{!q2|EIz%ZSmhN*@j3nYUEvSSz+invRdCm#?N
znXJbt$rv-)gYytaif9dUir5^s$pT#JjN+RuxYo1syWQeS&d)0;%FoG3P0?hV{FPsa
zmnSzdJ2k#EFS8`EsB*J{fB++#7SM(w&B<nhsw!ssMX3e(`o%@b`f2&e+403Ci6yD=
z$(cpTrI{uAdHE@+#rl&k3bq)C0^Qia@IixtM|T6ubpyYP27Z^g{q6`!UyzBuEEIEr
zC*}sX@`94<>dqI{oiA}aPi_@DDr9JOL(l4lp7}>^HW{T091<UdCPxY<06nlv*qt$E
zGn2@6HVIAEA`P&6Km^!jIv|$r<lRzBU@lFS&S1=%d`?<YFCyl8MA^lNvP;}$$adf1
z=DWbJc|qIxGPlbKmg^oV7d=ugai?q+mHEzS<jly*f5SiM12c&6AR_t$D~R!djlq%8
lmGJ{RloQAp%J><=@tSNWcV94#iIIOo##aUqU1SY(698)6gFOHM

delta 500
zcmZp(TW802nwOW00SHQt#HMwsZ{&N%p<u_zz%ZSmhN*@j3nYUEvRx*Na2hkZO!nYB
z#8$(cB07h4vJjU#qu6FEuJx>Zx44q?^Gb^Hb8=EsR<ch1!LPH~NPwS_O&e%Tk=A5)
zLDl+>WUH9a;?$zzn7o`yOG^t=^BDiURF|U6vQ!0Kg@BCAoXmpanBZ`QfTH}Y)Z~)l
z828K)kJ2RPocz4hVqL$~@&M-;xBTSn;F83WROig1<kHL%Lj!}D;-ci3G@y8VF-Rgl
z86p#tm!Fba90PaO<e7ri20}nTHZXk9VBpbRQF2}1_oBY<C2rq4LedvxqAv@@T;Peh
z!L7U?<+_^FMKz~O+)k6<N=r?S6Iwlay$m0tz+`FR1Yii%2)i@7Y(65qosFqTWAbFF
zB`{ywN@sXv0zF);3by8p83Pah1%87IM!}c4LoS3zUk@+67+!jbyA;{NJKTI1_%$zR
zJ74B@IZ$%lJ^7-0@+I!%&2Oc@Ga5NDvhv^X5Bk6iVmye5{=f=id|+d6WOQZxzz*dE
fGKMmKhHyM4i^<&=Ol4x^pOEpD0Yn#B16>3FSNWbc

diff --git a/src/fock_state_circuit/nodes/__pycache__/custom_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/custom_nodes.cpython-312.pyc
index 90eb2e5c74ce9e5d39c9d4cd213e59dcac844fcc..a4b299ba106adddb81c087f236f0b9409e9512cd 100644
GIT binary patch
delta 1619
zcmZ{kOH3O_7{_<kyMEv&20K6~UL%v*Az>k<B@k$#O>iLrsd9vafq>byfk2^MJK?pK
z5vfwDP>E)$gs44m;DD4?Q8j86^%6CwN_}XF515EboEoXB6o=4C?IoRA1F0yT!+-xf
z^Uch+^P6wK{tMiE4lF;I%{dfqkFGwyw7u|^<+RIlf|nxijqx!_;G<*0aBnOgjz@Zh
zAxXGA6z50B#7K-s-@61Bbi-q1$F#FR)FgCJ@f4sdWl@@u4M{87d^t}Cl5o4ie>A>U
z6IiVYq>cyD#oQ-np0c#rozYW{!nrf+M%#w{uu^;>W$#o>ov5Gh1gvtrOX-34D<9Fb
z0De~WEnM>ONtX;xQ$2+gm0)F7G!N4h6|>2#OkKime;e+`qhP*3v?Q4M!wfY_6DKp0
zG0yJBiq<<I>v8_J52%Dz*2=UD252!?)`<4cnS>6nuFJ;2krAssZ+8ZuCV?+MY+%tZ
z-g^MGS6|b>h7LVwg3TSTnqq@P(Ri;oBt?WcbT>QEZ#9b=P=c<Wngf0xBf0UCQU#Gx
zA|5P0y;Meg3z1eL9Fem`&JlT+h=e7k$HH;2zTu?agg;=0%2dFgDwDxn=N!9Xv?x|C
zWppnGR$QsF+K0y4bdhh1!Uw*fP3ILZHr=ROa;{XbmHSuA{VBKqe}VL-?0t%<Z;OF{
zH?+|cG-`Rh56}q)HhS~n@1Y#H)|Lx2@aJw9eCjDm+EgBe@txD6C`?9sXNL?vMUwQs
zMi@!>tT7iHJM2}7y++>WYgJ-ogb*|CP899C=Z}fyVPZO2Cj*%tpe<rPM&`iC^msEf
zoC)VUzHshFtF#V<pJ4QmcYX|QuP`XlxXh}^-onW0bvv|>yZKKVjG}^;T0r}B@OFpm
zl#0iY#WRId$ui=IQ}Ij_w~vtl_i-4~bZd>a4nvCFg7;c~r86b);-Eh#zUCKJ{lY_D
zfOiK=&E)=vQ}%wv)W5}`rL*7AxUPcjb)>HBxUPQeE<ktNM{!;0lNRKDXM@pRCVO6i
zeB>qLII$;*Ou+Jv1S`qd!!J8p90w)~jllu!M<k_cG!YcQzGRFfnNZ5!rI@;qwKKX?
zjA%0SfMiwQQ%7pja&Zhj?wQqS46+`Lgdb?YLAeyc_ag})!zU3DOu_TfBVZa%N53<#
zlil?Uxw_k4m<+y&t`8I)n23<Fi;77^>w|SPtN1P`A#`Z?yb17VWV{I^Z;`L&h~TS4
zNsB~oW5LCw*3nJUp%#<sIP&_RNcEJ|@fULrip-JrN0L8@^dYR8bTq!$nrX+)mm}RE
zgX*$y&k1{uBko_Rz-yD|95K?FATmSbI+0J|<H-_WfZD11$rixA4br|78I9^T%d0c2
z>M~l&<IU)@UQd;jJ~L!}h^8v5R)ll~zY<879?9t1)Fn#GGaA)xx{qd9)!`+Ixt($R
rYjzerGi3Yw_Le|zO!ELN!7;f2EW<guICtCttP9>hDDsqiINg5$`2MFe

delta 1245
zcmZ{iT}%{L6vyYz$FfV74_QG(A|qLp1!0#4b=kD5gbh$#DX>}#jx6l#u8hF0&J0@W
zEQ^L1lM>SAw%QtBG;M-u(`c^!dT9N4=|dliElCM6De=MQ3Ft$g=smObv-Cdv=0EqI
zIp=@RnM-Tv+rLrauLTA93|(vA$CB4)ZWV^AveR-vI;<sBO-hYUw6yql?UCL|B|@rl
zIw3ZQ-NVYLa#E8bN5pP5eIg<2n$)4_o#U~#(R3=IHFPD;bhk<EX?Y}~59x_EMU}@D
zy~*d3G*y<8bU&)WK~&D2NU3x@p-J+%rl-fEsWiz}^$RG3m)tvTh>3HVJUr<xC+?ag
z%V&!W2btaB%0p-I^~R3;_@BFbAMEb^qoEhi2TSeF()qI91!sh~ynTqDi_Qn}Dc=(N
zgu$(Q%dp(^Mfo(7;SJtk4RoB17Z_Z;@G74X3<lryZ!9&0uZzAy&<%z`%mnfj4><(#
zVeJoy%r;-($bkPF4!KCdn-@{j4OZPo!&Eng$EMbRejBhKAOgk!DurgFzz^T@+iz1b
z#h8sa>oeGu3cM0L$X-FDb?+d0W(^rEwN^~6ZFpg=gjy?k#hQ!!)Ecni0e>0k>s)5h
zyCiU+1=Xn<t?<mxS*mlUL{P8!`7ON1=B2mQHeu(%$LvZa(YwB5Y2)jA0?_yp+W5PJ
zTgZi;5!(1d!%m(?9`cUUkm?Kt{<&kbQ+*#^{eTI)_Fe{0hl}w{Uy#n{TG)jQ{8!&`
z+bO8xBjJ7-(TTOk9<;}P_r~y#N2{%g9a?Z6CXbIMa}y&y$L@oRje`LeG5F)24%{$Q
zOYRJw=Qul^ekgvQ<JYh69lngF@Grx0T79RoomP)1_iXo|I!`K2tY7`uf^&e}9tp7g
zT-AJltd1RWqD`dpgI1LN46Y>tB*5o@D-<4kuB(?}!<x6HM0ovAq%{QV-1<HKH!@#+
zJ+dG2U8GnNlB4M%eO)Vj7hRrw6+^I<{FCQOey&7NFImGeBiyXRW(IH$Fa!9M;s&F7
zK<@y+uWLb|LgVox<4!gxbfQJi8zu*0xxU#HK$tehU2Eo9(#~wHUUgV9#4^67IeD?s
zI~Q53-frgYL-2WZy~$Z>d0U++Sc)d76#qRp?Mzw4sw21G{%Q(RGg*hwHQb#oM_*zk
STe%_XKt&(bK4su(dH)9&Q&(O9

diff --git a/src/fock_state_circuit/nodes/__pycache__/measurement_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/measurement_nodes.cpython-312.pyc
index 2d4254d70688f2a0733ab4c2b09d04a77b22b2e6..f30e7f97e79f591c0f2f69827ef133e66c33a3a4 100644
GIT binary patch
delta 63
zcmaDRIYpA^G%qg~0}xobf6dy+6V0h&u3wZ|kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
RqMw(al3J|4`7S3XGXQt)6(9fr

delta 153
zcmbOt`Am}MG%qg~0}#X>iA~$c6U|xQnQRpkTAW%`9Fvz*X=!O;Y98aCm+DfKS(d7x
zs}PWpnUh&i91|R_5Kxq#m6}{q9OIr@;!&F9oRgoITCD4rS{~pW<CdSC9bA%FlIomU
wlw6uwVrXCxQ(TlBlLi!zF9u1(Cqran^72zsi(_(A6N^iWQgc%mPvK++0LT9~F#rGn

diff --git a/src/fock_state_circuit/nodes/__pycache__/optical_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/optical_nodes.cpython-312.pyc
index 403b9fc39061ac77033686d36aa4d83a38b008ab..e8c5e31a5e9d5237aa0872baf265f60f8e454277 100644
GIT binary patch
delta 1746
zcma)+TTI(k9LN8s|9?yGrEE3KK^R$O{0*$7EgLxQV;2T(7z_ef)|9rBa%t)5zY=PP
z%X9`GHkl{J8JD=2c$v7w<!>^5Fvj?@WZ6T-p=mVnVP5v+KiN#wxZwGna&eW1{U1L4
z_IG}lbAIQSv+_H-tRV9(lS$9fuR6Utv2x+M`Gwtfw*yCJ;*KN^IZnkxlYyiZlp=vp
z6o*n#$q|c(BT0w6y1PV&M7gBauhX>9c-$&W`*dpLmgf)X1XmZB_5i8@BH$T{t19dT
zT?U%RKG0Afcgvr*>IC~1ard;a-U~Pm=#zgrcuvq91KlGhj{eDa4uQ4<o&r<>h5=jb
zfMuekM_@f)8dRTrtw-S-9yikf#IQa2Sv0xRdzaiCE+yIHQ+(K%A&Zr^;;?B4T@0I>
zDCdx9k=y&cs;a~HR_T{BP6sC=fmAFi1@WAy!fxu6(?NFwQ_-YE$caVt9<dKx+-~Id
zx)+4k%&(dkaaQ}}rIxJrX_D~T$nB6${&wJ3RT*>^y8zIYs{*!whO)Ssd^hBvw^B5G
zjJNLxOF>WANj73}jHLV?G)O-3e}LLZ-)M82glH7|GJHlzQx(>yY2%jG>|w)XCrxXR
z_%$~!Y+PSEizGF9I9g_u)a#2ATJlxJHk+{SQn*siudghr@-bmk+Q4zAH5qQgK<ZBJ
zFbEsDjF8K!{@A><mLKICJ$G`PuiWaiIvV=i8!J`68TMLR$X~%!7n?3PzgU#xgJVhD
zPBj~hoH{54W3HT#Okj!K5AJ4u|7|Zg=jWeX8>>Ja<o1}TnWZ~V-Xi~udHWx1=Zuzx
z^rfDxrTW9VtfgkzQ2UASjluIn$xcPZSr4i1^Qvtn3a2uaJkWAh+nf4}`pceo8sBQX
z;$PnB`qXoy@p|KDBg^ii%f($cE3?Jj^7&9iK>Nw`km#L;`VN2-PzPYsaDXa0<@p%^
zYZ-;e<2KOjh;cBijmkl=c9Q7$0J<W7Ieu3iezbWxt*^JEzusBz#0}uO4*<Q~EQaUk
z-$x20z@W)DD_;NtU?2Dp;4mqQpF&^Dv3Lza^W^QBdfOSW7X#)2R;I|$Grmqp@V7-u
z%}hm}jmD&!T@<634jzXW0PGG}P%8@puu^A1y##of%qGgkGaz>Xm}0LHi~FDV7m3m-
z=CkQt=tI-cBg33B_-H@3a?$4RfhB7OXQm20Njolov1wy@)A4c6M#Jb%&O!7m6h2Xl
zS<hK>HrrHK6T)mcZ6FW}PDcWP9QhHuj=)odJ%A$s_DJ`G8U(P1a}-nnFb;rO!f@ZX
z0|1W%J}nO>-&LtawM7{r4^x?zJ!;GM4wu5y-=CarMNNMd4Oi<@ia=>Ohey$Y(sMOV
r#gJD`ZRkFeC&-QG@1P6h{A?+DoxDF=VVyJ}%VNVH9Q@)ZXvKd48eD^U

delta 1752
zcma)6Urbw77{90Y-qPCwr7##17Mg)<jUc6fPzMZG7>KlEl(I1{bgaEdp|o)BEo6fQ
z-GV+C<K{6@6BdmxN-)voF1iOzX5yPqN@h%Bj7ygIV&Y9U6SKs`^PS7T5lnU-e&=_-
z^Zh^Hy{iWL`7f0JLtdVpqig8<(TO{6-^yRCTwaO2C`VKUt8yxN$?tDzYL-u@lun$O
zSKPJk{>el#F{{eqv+jPJo>F3(Dt9Nep3KESGM!S?+K{r)ACOO_W7A=6TvGxG9LprM
zdaqYjaZH||@~8?I(U^H7r_ymnmD96YA~v3kru45WB?+zRcWY$HdV;2gJM<$jNFr*~
zYmQ5TuNOo|0geH90FF~wv)~Z$a^O5Z4IE0tefp~>Bmwo3xj?Do3`hn5!uorG6~X!n
z@StAN^AF!S47>{9S%7MQ^8ovV!{CX=8G(B<4zRF3(r553PwQz2Y*<dC%$i*5e?Wd~
z&LQ`PU1a%8Qn-XXxq8t+&?4dnszKfuypG-_2O~EGJ102_ikIox$RCz+=m7QsKtXE)
zb^>n$XeVDx9wd*>m7;n*Z@8DQY60n<l2{_!_Bcrv<wi6}zLY;jN65L+wqr~Dl5m+C
z#_iM1)ZC#VdSEN=Sl{GVk;aqz73H}azjZlfCEryP74usvdv8d=n3TV6G1aeFm$)g3
z%(a%}FIlxsA;(SG!G}xyJa=6*6%j}KlBeGso8(LPt45+~r21ke3Ke;*_$1xfBW1;L
zZ9L`63hErza3hHOKqY5)zd&jZ9x#|ETtGq1q2M+bJ^<1H5n>)|h9;_hLmFa1av>sg
zlzfo;qoe9G^pnH$YhjsT;apvohrFez(BLe2g^#S9tN4BU4f|^2NB$4}AD`bS^WHx2
z^`Tpb?zC>y_iPlrtZ&2=0kshSq$fBHQR)D^0QCUurCTYZ!)LxPNFhrPk6!}Ls+|GB
z<`{H>w2O{G1l`od!~-$@WYe;?Q2)trlefu>{h&%8n8VP+onUyL9-j!127%S=n;8HM
zShr3A>n6eU1iGu=PS+r`Nbb)z6<+~4v=T1@xELeP&4oI_!DFYEnN2DqiIi63rZ9@T
zKw$-dJqI)DfFolp)G{1j19+W$J9l`Qg>b`}G4@B;SDUKPa$v?-r6G?ES8SWPx7pqx
z^kT~lY(uogyH%ctL_o)8z70#F{eQiYH}T=+w(aX3#iywk!tnSiSYM+66|i?;4clqm
z?)0{@E6&=Y(bV{i5{+g_rRwWuUqTbO>H%Os&p}{k0Y(7E04@Mb0Kj}<m;oFBSOB=J
zud1I|#G|6q7$SlBrS@vk`AeP8;OYLmx4{tUZdkcmpOFL1#?>_%5->Yg<24*6YwbV}
u866=1&fk0HEpS`{0H54rTkA|Zo=Gb0_#N`+LWOJ6ft=S{{^nq3YX1S)fqm@&

diff --git a/src/fock_state_circuit/nodes/__pycache__/quantum_operator_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/quantum_operator_nodes.cpython-312.pyc
index 0bd99ce4a2ac9a27b5a79681360aaf4bb0fa0075..ecbf7e5cde74f9520b91ed27aa59a87b76146898 100644
GIT binary patch
delta 173
zcmV;e08;;kN3=!_%MA?*00000TYLX%?6D2H1SC8!a%FIDFLQEZFJ^CJYhQD8VRU6*
zV`*|@b!l`jZf|5|b1$<!1<M8n2z&>839}6h)dB@QxM#p`v*!-`0Rdc-;}AyyT(c_?
zk_ZJ1d<%RHv%(pK0|i0AC&(|eOC9Y2E?8XGSa#7^cG3%W+!7nm99z>8T+j?$+zSrS
b4=K<qL(>aH$OP9&WYI`u(hFp>W*;B~_t-yg

delta 245
zcmdnu*5=N8nwOW00SLC4=A^ya$h(WBzAxD-CbT%Us5mAsr_$2W!qhy*KQGm#D6=e8
zL02IlBQqznpg1NtTp^$+KPxr4q&UVsv&5q`$vG!KFSS_LFSR_tImRtNIXk!{u_V<w
zvnaVVv&7KAAf~t|IVKG#9$yTSh);&d#N_3tq!z~%mL}$vl;+0gZ~nq^h>exAhP{Sk
z^KR~|OssZ0$`90Sp33)|k<n%HL;-h3m(4c?CULOx)^OMGY%Y*&VP<tYV1B}G^G}(#
ojNIYT*TYLMhL>LAE}i^QPJ;VD$#wVSi|)ynxRW=F$Sbe_0NET{!vFvP

diff --git a/src/fock_state_circuit/nodes/__pycache__/spectral_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/spectral_nodes.cpython-312.pyc
index 1c52a89ac6f78d74a66fb9380d485fce6082c4ae..58626e2ca0713d4e3dd49b71e9247fda67aec4a5 100644
GIT binary patch
delta 63
zcmdm#_8^t#G%qg~0}xobf6dy+b6G^iM87DtAYZ?@C|N%(KRG+TxFoS8H9k4BD7iGV
RL_aS-CAC<8bExQDSpc_q7Q+Al

delta 154
zcmaEmx+#t4G%qg~0}z~B5tp`+=dwtBTe4M5XmM&$aZFxLrKP2Xsd<clUaCt`W?8C&
zu0lXYW=>{7aZGTyLO@Y|R%&udag2LriAQOYb54F<YO$_gYI%Tjj9Y$kc5q2zNvd;Z
wQF3W!iJ^f(OmR_iOd3!;z8EACpA3<S$;(ekEsiNJ02)=4m=nL5NA!v;0Ne#RGXMYp

diff --git a/src/fock_state_circuit/nodes/__pycache__/superquantum_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/superquantum_nodes.cpython-312.pyc
index 59f4eac47109007caadfde76c0febba16bb6cc42..80c460758067d7821c9ecc525171b3762708d146 100644
GIT binary patch
delta 63
zcmdm7^RSxdG%qg~0}xobf6dy+vr|yTLcb`rAYZ?@C|N%(KRG+TxFoS8H9k4BD7iGV
RL_aS-CAC<8v$fC<Z2-OQ7UTc`

delta 154
zcmaD@y}5?xG%qg~0}xcbk4@Xivs19XE7>Y0v^ce>I3_Qr($dnx)I7#NFV&?evn*9X
zS0NxHGbgj4I3_q;A)qKfD>b>KIL1A*#G^FHIVV3awOH3LwLHK%#w|ZNJGdmVB-J^y
xD7iGV#L&PXrno3MCJiVaUks9nPlm|E<mIQN7RMBq7NiyxmL}$H{v`Nb8vy5DI&1&{

diff --git a/src/fock_state_circuit/nodes/nodelist/__pycache__/node_list.cpython-312.pyc b/src/fock_state_circuit/nodes/nodelist/__pycache__/node_list.cpython-312.pyc
index 69765c02984fa702bda246a724faf1f1fad67e67..17df4983ec4d84726d14ba1a6d4c6f723bb214aa 100644
GIT binary patch
delta 425
zcmaDJ^CX7%G%qg~0}!+q{m**7k$07Zu7!S4YC*n!aZ$2<T7GhNd~r!)Noss@W>Io!
zW{G}YeoAUFn9Rv6F45m?COMsh@zLaSiuV|cC$CjnppwN2G7c5gu&ri<h}5#zFxRk8
z_E(l<WZ#^r9LpxhTBHw@DpCd!>L5ZDNZex0%u7kF(BznWS2I!amS91Cab`(oeqMZ8
zYEemMa$-&~2T+y5WM{1+#>UCpv}!pu7zCs*a7cYooou7+#VG;deGs4AudU4~0_6!#
zKCG=8{Xj+kx{B#V71Il5ZkJWuF9;~!aP+z08+Xw${z6jjg}nTWNd*@K>?Ux}aGc1u
zfct`u?L`H<4_r|5Ss8?7F33b)7K*yS6ZP|xDTBB>V=*hxF*7)wbtW6?7;uMzJYfzZ
zLMP|wC@_Xi?$yx~^8*U};sk|RbY@;jY*8dgLG<K{I!=rslSOprF&a(YtlQ0)G}&HH
Sl0T4{QTh`Dh%9messjMAzJF!_

delta 428
zcmaD7^E`(4G%qg~0}#BdNKCWa$h%6SzAM=(CbT%Us5mAsr_$2W!qhy*KQGm#D6=e8
zL02IlBQqznpg1NtTp^$+KPxr4q&UVsv&5q`$vG!KFSS_LFSR_tImRtNIXk!{u_V<w
zvnaVVv&7KAAf~t|IVKG#9$yTSh);&d#N_3tqyp^%k~x{hB{7?yNKEHoJTSRN@g8H+
z<Y=V@Of_ti<&`BF**04$$FhmD6zKz<Tcivk)Io$QkkDkGyhSsSwU`~qo~)-;#F#&M
zp;j%Y3WI?31rDh%ij&o~y*Nc6ybr>YtF*N_1)x0M$?LRLJ#RR8U+{^!=n#7$A^Sp3
z?!|<>3j($ixMw&{<XgafLC5Bzg6#(`sA;SW!ZH_RA}<R?UEqoO`N@z$+?}zQ6=?Ge
zPG{-KdO8N&!60{;gNWeCnK}xLA(Ojw^u&CD0>3yxo{Y}SD~T-%2Puf0d``!SF=(=&
f?mR|=$s2UL851Vk=t=VXGc!tmVgQjvE<kkvYO{uR

diff --git a/src/fock_state_circuit/nodes/nodelist/__pycache__/optical_values_component_names.cpython-312.pyc b/src/fock_state_circuit/nodes/nodelist/__pycache__/optical_values_component_names.cpython-312.pyc
index 59f172f85ce5c54320f510e2f788800a53a3ba34..fde40b063b8e8cb240b2d88ff2f5b3d6c04b3664 100644
GIT binary patch
delta 2928
zcmb7GZA_cj6@Kq)8(bW)!Nd?ujBOa?O#+la0<mdK0P~gFUcd<~AGH9RiEnysK4KuG
zS-K_5ezZG3R;g2!ZJNfqO(kNVQmbuEn^oP9;Skjc%clH@w0{$XYE`yL-8uKgO=119
zy+Y6ZI3M@ibI*Cqo7dzIugh6~%*@P?@cRb;bm*<An_2!^_ANMH8$BIn*Q8JyiRg<N
z)e&deso5M0%W*XR2~&4cBicQa(g|yx>R*$Fa$sZD3=Pxi`{Sq)))Jz+h=5FDd4%*`
zl?GT?cSRrD1Lx}8EECZNzpUGvnWf4l=|Y;44iD=Nu@=ZVdb`|L$s-fvl~LYbIWXQo
z9E!$zW06q*An%_Xj8%?}ha*veBZJXcC3L%b*j-q1J;#jjcb9K>Zm6#}Iv5S%Uu0}@
zG{Vt13@-N@><@6??bhEbQLbw5>K)6u^#+Zp5MxlZ+=Rm#>*d8z>FHp9fw(7N+KYSK
zMo>Ud2=_f@tQc6s8FmlOHGIUJP<{N@c|t=^8tDj%hUd_{0_4UH_6U591M->-pSBld
z@Y<LLMfkzZ<N4s3)`Q1y$r|2=>bqlGdEOFbESEJMW=w|j%|9%XRV&Ogo0CGRg|x%O
z2rlpRmqe)fsKf0DYudqBgsYdJ=(vcp3O@3dup;=Ex3l4IxEsBW&wfc-*Gs!hNkhpU
zL&;Cgi@{`hAW<GzRld9u>`4X(62XBx%D@A2-fP-qzAKUMS~a^@cDa`?x7b+Wy^?(*
zr;m*0SDKT#M-sV5R*khQ`r0RtjqvkUd(FOlZ;tle(p+z0+Pf}`H_vp-l!5bG)dk+N
zwD&SCUZ?53;tZU>pQpq9_nkU#8R**z*+1Z+uL{07p8?CqEtD^3TqjACvl+%4nUqSY
zB+bdGswFl3mdZYOqs>wfX2a)%MLt>>@XF#N3pmhJ2p_g}XQuOV+)O>S(q6>e(B9s(
z@Coilmk=&V53_eCvmJ?S$Bp9E?9!`g4~#jlR9~NYttM$bl&~IJs!3M+6ZmKKCyf5b
zl4M$t?{=MD={~>O^}<TuK(cQ>fqz}|s_0`$YLZ*zbxCTKeex!){Iu$nyW|a8b;+pc
zK_{r$BcCPNIk}HCd*psv4ah?>hBqKDkipi_gDaFhvmkRPMh)(n8nAW@F*|&{;|TjV
zywj0~h5JrC3T-F8;&RcQsa)2y!;uS7-h|UAk$|0>Nz{rEH#d!sPK=L5#$x{7(MYs{
zG$nZZc^f=AVGzz@O)aR1wg1$g4l8f;za6%d!`vMXg{lrcDyp}#o!+>Ig4r3I2VU|O
zunhRF5ABw3`@X|iIlK_C8{DKVOe)}7pq?3*ZwFfC#%hXD$E!$6?Z#^fiU{^2ph#_9
zoUdh#Ps9fMdq+Z3y(5#6C?~2!b_jGHW)^t4^G|^?($e;gkB@K%$*cqlfv6*Kh{#3*
z?KKlnGC3tcjV(a4PJ|yz+zCJEDzzGP#>J*}35O5NVptiO*rerp0X*tb_GIbm*6kYI
zf_y`>F44HC-4r8~2ECYqk>DdMD}j>}1uO_76Tg+i4359Z<v9j7n{rJ^9-q<k1zFL+
zuU;%Y)#6tS{49l%P9O+EB!~E0lm_2JGa^b(jIAcjjx$A86GqliA}RY;)i~fFx2C;}
zbrk(R_;`Q%7UjZQygrSplAm1O;D2U8@gjOIm{y$k1<%3{kO9>w^0auMleD2e2+pEf
z1Ur6e#g>D8(#8NhlOM~??EfcT?VL1}0S&QI2>A4He`*i@tZYsd|BobWIiSe?prTiE
zCdgRa%T6I5CJ?C>MX(p<rftjxuTNVK-k@B)gz`($J%jP{B;1xLZ(CK`KL{p$p@c7V
zM+w2&^s)UZ#(khNZe=33a@F|kivHOrn>wlNEQ`|b{qG%?#zJt-xGjxz^v?cihU+s0
zwja^a^ssoe(VR3o5=O_0-XYk7dzNp_$gEyGkU~Dhl|+#|N6TXbR5+<xpsw3i3k|^H
zMeI#*#9tT9JzFQbLS#iW#LlQ_GoBMr+wZjKKEXIYgNa#{A7+m}bs;jj(*<qD&D&iF
zj=70GY%nsXvev9he<GAGCK&RQyWNk<2fq-GPRx^|?)mT4Jdc{(M<9~1Rj4Wj(XJn1
zN1+Db;6*F@4YXZsV-?G<Ud&=1Q5(b@sccq|+2=cp=pt^}9#L;BG&mNH%)AYMT_`~o
z&|LD$c|<O$ei2~|;s*X#61rT)Zo#XUk1ll4Mv&kX!D#|3frEgWN~JUL_JY$y*2_rH
zOwdixKp@^xyo5OFGh*YzB<&#(T`zu8&d~CV)FDYus=O6kUXeEBUZ&HpH*0nw1tPiO
zu!P)(!+N1X=Um*q7+X5EIGa%1#EZ_~X^0k`j|+6Vs`V^@uYJ2s96-MPN}9OLT3YPF
z#NgOhxrPoD_o1G^qY<{p^iO^L=y-T?Byx<8!swME8`ivSLn8cSN;fRCR`ysDgSf|k
E06(R!asU7T

delta 2669
zcmaJ?eN0=|6@T~nBaRI`KFpUP#)gF8G$fD^V*|wnW8#ot+!&H3a~o0HGzJI4eJ=qF
zgjCJ8M9o^ZBW=~HX|1$rtV}J)RX3@d+O^FTZJKI_s-75=DmB`lElDbMsj6-FT;n3>
zv?uF#?>*<-bMHMLKmYl8@wFRb-d}Qa^#c3SJ>j7@l;u2MGr0m!Hp^Zm7sdD~Qf3r{
z84@OOX1+)=lI(axIH$|ngvCw!8^Ult6wDUEUpsfeV-C$8Rh*eI>z!F^r8qmgE)0>d
z`kGEDg;bjv^4&U^cNCKxwyJ_#j>_C`?lYyaY2h=+A+S3CH23pROK?DrP&qgnn{qlG
zN1B6uqmeEey&SRBTm0vvvFJrP7&vY5)3M=5NRfj_ql)*^)9%>VXhg2}MJD|2VE0&P
zB%ll`5qFe^E=85bhK8U_L%|^?KPRK&TqvUnj*f*R>@0?{sH_CR*zyEffeS5<k~~;!
z>4m)3pOJUqH?6IS&sz<u{0jCwo0{gcVU-NhYS6oS$Qlf|`tmE8jP61xN2q`|U3*D2
zthvsTG&Dc<F|k5k$L~tH1xA<dU|>_xLY&vbKRSBIr%=~9B)%y^L&tu2tFxqVq>kx|
z6}05vi~!5y#zel`MF;_Z*Dnh<GRLx-HG<E2OIf(}VE4@IDP!Ac6@yiEREbbpifeua
zG^hL?4UqQiCT95BbMnYPnN*%+POl1g4SCm<wA7fA8dnU5mcnVfH)Z$UF?iRCN?%f^
z%MPc?4zCn7C3Bh*FLaxU@vc-f-<3AnQ%3uW)ST2cKfIp{w~tzyD$BZD>i0}W&ra=o
z2TDBZ{P)#*Hh+Jw$z#-hKuSDP{s*OcHov9TF!?P><1s>|w~{QtYraN!IAMU_b{5xR
zEG7x9Bb!eZX2fjChRH~f>&xI1Z;5(F7}kU7SX8H_`|+XWFn_Fyw7}9a_Y)8BjlB%6
z3ZE1drwgp90_!U^D+RUJwQEx0y#4v<m%?eYGsS+A^Ntk%edyiVw?}S2o@)28)klF-
z$<t4+1fEI`M$&`v6#E6@NnM;;;q{(ZNfr2y+sprjN91LWkc!fhH6>Y-IxDkT>Xo7J
z#2KrTDJf=WRXq}!l4&RIz+_rz5vsc3=7}=#YXQFByDP_@l2}X~Nu7gxP;4G%!b)e;
ziH2qO!neJ6A=X>YD&>2<HdcO1y~^J0J83(fw*B;WIPNnMEe!eCzQnxmCxq;WI={ux
zg4TRXJp}x1#E_Wx9~J8k;e9l;0ky~l)Q(_AurXk&jVk}o$#T{c<$)ul5c&ci_SG`&
zs`}}%u^6?WwF!YGTF9i0JLIo)q0EiYjo?M#_weEDaR$E@Sa2@%*H-8?(t>+kV8iVq
zJ|troAK-Gm3|{ZIl^ZmUb(2anO<qy03pg&QAMg>@`#tQr_JO+<qy{R+O{5#_<L{_v
z$Z!t)aJ(448Xr?n5t|4v(prtrrl)7&ZMv%-Nr7UvGcU$=vx%7(pJj7dWMJ9Is|ECO
zh4xvNY5Aw{h#Z0+%dJ`~?)4|q^502652cQBHsRg+KjKOE;RdW8#zj1`eiRfSR5Os(
z3@q%+)Y5*?UN(~#V9(_*L^H{fi?oegvb-T?NJbnsFse5}dZL`<!o7)_|3fv0Ln0AE
zs#$TCOb8T--L@mcg8T&-5ZZ)*;mG8!5^heKi4ztlD|Ww((HLi{tHN4_boQmBeJh4X
z7L@eCj?}@9JBALpKiOWhmZ6w~DdWKvsUfLrc=$ji?EMarwQTbri%U9pYGJvj30|Di
zmUQ4z+w0m5i&G}^t9V|fJO8$&J8?^U;?pUSwDI`!LgZ|&Lsc8XqX?Y3H&TpMxFy9d
zuufNzUqHw7%bBKw1G76Eyoz}^cmZ#}84BZteHWEzXfSqaFm@>-A3$RG70l0U^e(z_
zZo1(uu-y#`<3(HDaB5g&e#~%l*06b{mQ7#0leYUpVcfXY*JXaQH@LHrE9h+A$GG*%
z^`_&@nw~)5!P%%w?zkSMNVwbT(g!EzDo6s(&v{9GVtFo)xOjnJ*Jm3D_il+UwtBo|
z>#YWrbJ5XoWb!Te_to93gKM7kh^0sj+4kVqIL`#^k9O|4M)C((e$F{}5(NQ-euM!8
zPCyo%VGm`fh}Q!D8{rYFMFpp#Q#j+y#B<6s!jJlfl;|*;oJQbH&bj>zF3$)(f?&o<
zOtR%Q;hs21G`jUJm4VS0BPKR1F<xTBy2+raUMOBrmIfB4Q?^#rRllo3UG;sFTGP0m
z1Bq)t^6~@Fx6h{Kk6G0!Qx~J7&rlT}$ls&Q9R003eWh!=Fc!WPi?q`i{NTG)W<@0C
UdjjH@qnfBlj*|NVANV`|3%Q?uTL1t6

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_correlations.cpython-312.pyc b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_correlations.cpython-312.pyc
index 68943ff6bf6b1e8e49854eadfaa00899d448cf12..63c27cf0862eedfa3ce1cd022eb9782ef40095f1 100644
GIT binary patch
delta 73
zcmbQTlIhS2CZ5y0yj%=GVCDWbYa>s%j9i9(QEEZHesNK<ep-HVc6@P3Vo7Rza%NF-
YX=aK3<cC@^li$nmF@jl}rDUth0fsmkmjD0&

delta 166
zcmX@Kf@#W1CZ5y0yj%=G&^j?QZ6i;(O#QB8tC-N@)S}{;yqro)OAAx;82`Lfm!izF
zR0UmyfQ-zX%!1;W;BbY2qWrAX<dWhT_skNH(j@1c{Jhj+UBA@w0OuID{N(K5lEji!
z=ggwy(##S=1B002qU4w~pm=;SNFqKNA`?@PUyxdyTpC}LpHY;PnLK%dj5K4+<VG2p
J%_n54$^i?gJkbCE

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_photon_pair_amplitude_functionality.cpython-312.pyc b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_photon_pair_amplitude_functionality.cpython-312.pyc
index 3ccb4af125da34c9b01d059a6e9b25244fa60845..a55a480f34faf2b163a3eeb2962fc23b29e4d6c8 100644
GIT binary patch
delta 65
zcmbQXf$_+CMxN8Wyj%=GVCDWbYa<Vnyj;D0QEEZHesNK<ep-HVc6@P3Vo7Rza%NF-
TX=aK3<T`mRM*Ynz<#R0nwhtBS

delta 162
zcmX@Io^jd+MxN8Wyj%=GuySH%+D0BG`TC2=RxzQ)sYS&xc{!DqmKLVwG5&d}E=8GT
zsS3IZ0U4P&nFYl$!Ql!4Mfq8&$tA@x?wKVXrAf{?`FW|ux_+tU0nRaQ`N`SAC5a`e
z&Y4BYrI{s$1_m+3MaeN~K=JrukVJekL?)&nzaX_Zxir2gKcgroGkLPLyfkCX=5YC3
F3jh_KI&uI2

diff --git a/src/fock_state_circuit/quantum_operator_functionality/__pycache__/quantum_operators.cpython-312.pyc b/src/fock_state_circuit/quantum_operator_functionality/__pycache__/quantum_operators.cpython-312.pyc
index 74991032f7991c0f03d982edde0298a7214d17a0..898d1fab90340b02da1e753fc974956e59715c64 100644
GIT binary patch
delta 1484
zcmZuxO>7%Q6rP#=vDc2Bl=z3ZwreK^;yT53V&{i8O5?@}X@#IEYCuV_R_k@MiGQNq
z4Nk+la6qC6M=i{OiUX(@K<cI73lb8lkPrxvunCfpMK6FvPbky@#Hq|UKOpEF-g`6O
z`@T1Cc4oicfZuIE`&Txb1&}fK!o8)$$q(#rIs8vWRC%Qk(NrmtDM-sHO&4`JB`K=3
zs^}5?pwkZ{l_BT*yqz)`0ATZN1i+j4p069Xd)<x+a0OmL5_17aXu%0U2^tW?u){L}
z7FaSx26~+-^DHR4Ss*bbRD$@V_gRK1v2XZ;3^Eve%Nu4GgT=pkdu&ibEu{gfg#A7@
z1DEVr?CXS7)rpH<7cTnj3|E4b&Kex0Lk@rMo91`}EOp`^e1|<3O%j5;<%(oyBqoK6
zAY`sQ<Nt~5AaKXWH&{*1W*XK-F{fnpLS7N`4U@De=JRqEM}kM%%{ft56-m}Ko-`l8
zdT?|$0|9smY+HcPUN?JcX3w=)H5jYToUhMFwHfJ80ETAJt>abg5(#y97X7y4?zVvH
zV&TK$Rx7+&Y_|M10Kz$hZwKe+X3-oXtXZ^3S=9XjfI~rq@Hje$u1?e)(V8QAGhFYV
zs`XEOaj-s}sZD39i&?@_V1lx!`yBx1Das<;%jTBHuXaD_ZFbVl{dLz&0nJK!y6#D`
z_D_3<la|Vz?iHTzBWvo>%5xzRjyz4jGiiY=wFWs{vhv??V;3*6I=72q(d#m?2Ae@T
zi{X$L-ySe~O5FYVOIGs1Jd@<Md;`EdDNy1|CIgcBXCyZ3w!MOeX}^?UnA5O}040mw
zzK<irj6V){#jT|_qb<!W_mWmZhG1CN&>EuIX}C_*Bt}9f$jq?pZx}3f&?}ZCxioLD
z&iVtiLODj%SgNMM@?%u5rG;Ah<YJXG|5xg|uM*|rjlP2~cJA+4*sEnQ%kyNvu>1}=
zCdVHBkJsIMv9Zr-oq)~Y4BoJ1NRK;R8kT=|S^k{7yc!D(?i>hlVv)SyK;@C6uP}$&
z)F_cu{lqj-ex<>!%W6R*4?t7$7qT+`_E?X5n1CU>8ls5;HT2G?9(*8r+OLL5OwtRv
zoS08HguGl#DfzU#rr8OAFGZ(ZV>@rf1Kgf#hwGk!nrC3s6|4Lb4KiJ$l+C5}iz~7^
zM&eML8X!(h;9%UzPtY)iPsESGL7a;})OCg|G!E#hnAa3tDdbbFr@5w%;v4ZnSgHIN
ze;G2+Kv)^tel$VZ=cx%&GfNFsZ19AYTg`@;ot73Ta0b6NJi>oMLM@HI93JmM!UViL
z`E#KAJ>j}gJ#ze`$<4s2TAOc+qsSHyI)atH5tA7vacn%~qG!|)<os$*R>{9p?WUp$
ztc{N!nxc?9l~yD@Rmh|YE4m_y+0^r5c2(BYLA*IWW_^ODXQ>HSe2KFRjNn32@95!N
Z&C^iedYdjY7i>CkGuaOl_~FTS{{{xzV6p%J

delta 1431
zcmY*ZO>7%Q6rS1j+PiUVH;Hj-$4>41ptw#_JBb}9q=}rkF%5wl73hJDtc|^CHnG=X
zcTEy^EjS?2L#no#1Bgojp;8G6B{J6v2?<e&9BiePk?8>mAt524kO~f5n2GC9_VC`!
z``-KZ%{M>yufhFm(E6>#(gN_eAI`2E&g@w~u)p<jdXj%t6&012v)dCB(eOBbK^EhR
z^rq+?@+McMthAx>7cY5}N`6gDYbu|RwC4-UbJ@HsszWb{o5?wTKA&E{s0o@lCn@QI
zq=kY(URBck3XZ2#0;JLngny$T$XX$n%5R8@pykm6yAAT?pX_&xXmFHc)+hkpL$};L
z=x$dhouQoQRG<?rdRWx$ewl_P3VrDAg%Is~0v3Z#eMXbz0003xGk$X5I-RC2gEX}?
z3P6e0!J4H3KW%k-&5HWmGw4N+l{S=UOz5K--GC|2pgqq#W5RVEs5;t#Y~Ae^Hcdgy
zSfV$9pDRyx{|G6CLN4zw98))_Vs@q8fxKQjiu&wb=2amlWwpF4338py37R6MMO9_+
z@6qeNvx9yJz}w()3*c-u)>UO)?~he{W4oDJBvFkd?!jtgp%&q*5&k~Agnsw&$t3j(
z^)~=XN}&E|xW53fFH?^Ih*68wjd;x-s@g-lf!au-I+D0&ubod-&!;MaSQCm>q4>al
z1*hVItL%|Sw|g#}_|r@xsu6efl|32{mfLzajK<S=sszgK`UM!}$tC~|ciZ^1Cn^Jg
z6@L<K`jSDXbwiQGf-~r3;1rgUL6ZT$(}-m}I&4jrhF`NBNqare{+y}A>M#zLzQ(nj
zW^3l@>@jzX&Sjtz10}Q8c8pUxhaLu;f!2~mw`Az`0o=J?Z_!(~s4a?QXJ8R;d>S8y
zDLm878iTCU?kSQ&;3j>soe=MgVG;u&QQ^*HGbckG(c-<|S!oiun&AHlNECfO*cE=}
zxWkrahEA{ZxI4IW3#;L1;{SQgiFVI+`mMTAH|f?D+<#*Qy7}o9?0jPYJ5>YFjpgZ~
zn{=N=31SK*giW22H|k7LRPt)wlvXAAa#mEjF@Syx_PWRMz;9FhB%33~OpJ?|C>jVY
z^x~RTL6*fV9^`X5LC(}US=>xXaz@-z$(DH0jZmWJg~rKsfo|U?9hLsbfp7f46RohW
z?;NKqgVR;Vbotkij~*j>*O`pAjc@lf9{XDrFLp|d#91jL%9^BY*BNzHz!`G{8b!0=
zAPgfl-0xf<X>FP!$f~4Cc{z1-hqja{v=@%RFUmiM-+?rxLzEwXJWM#1*NE{EbBP$j
zSU2LTTp{bH8w+0|zyi7%oiKihhw3t_L}Nb4#o^WYhu)q~xsSLz&sIXS2j01AtLG6-
zkRNQ`^4Nrlg>f_$^E-%+bxxEEIr3<UN)Mrop)0W%oJV(K9^C%-u^ICs31^8(miuS%
jb2W@M&uJ(67{}ov<d}g&hl%kWwxfT}jldWhp1=Jsm}qWb

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/collection_of_state_columns.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/collection_of_state_columns.cpython-312.pyc
index addbf1d4dc55efda6e8acee8bae5c4ee9ab396a1..c0313e3f37bffee546370909aaa329a76aace74d 100644
GIT binary patch
delta 67
zcmZ2bey)t?G%qg~0}xobf6dy+vq?xUMZYMuAYZ?@C|N%(KRG+TxFoS8H9k4BD7iGV
VM1S%|D-A~d$&Nz8o3n(?Gyn~77RCSo

delta 164
zcmX?CwxFEnG%qg~0}%ZB9-p?6XOmF<wq&cA(Bjmh;+VXgN=r)%Q}Y=Ayi}K>%(7Gk
zU4?**%$&@E;+WuYg@B^`tkmR^;u!bL5|7d(=bZe!)M8z~)bar57`Oc7?BJ5bl2qr+
zqU6%d5<>%nnBt=3m^7exd@)EOJ{cktQ<9onkYALT6Q7uu5?@>}InPRxF=n!(knm;+
HVKWT?a?(5D

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/column_of_states.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/column_of_states.cpython-312.pyc
index 4e970e48532019c9e96cb08a5cb926faafd28326..bb07477800a87f6cbe53d413e45f675373808340 100644
GIT binary patch
delta 65
zcmdn@kLk@{CZ5y0yj%=GVCDWbYa`DtKe<T#qSS(X{o<lz{j~h#?D*o6#FEtb<jkVv
U(##V5$!7i<jQX47{qN@k01-(T4*&oF

delta 162
zcmaF!mucTWCZ5y0yj%=G@IF&6Z6nVvzxvh5RxzQ)sYS&xc{!DqmKLVwG5&d}E=8GT
zsS3IZ0U4P&nFYl$!Ql!4Mfq8&$tA@x?wKVXrAf{?`FW|ux_+tU0nRaQ`N`SAC5a`e
z&Y4BYrI{s$1_m+3MaeN~K=JrukVJekL?)&rHMbzYC^08KF)t;)xM1>UKS{=z&Ak5i
F^8o`SJx>4t

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/interference_group.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/interference_group.cpython-312.pyc
index 3e15ed7d15a9512bdd51a51a2dbb8d537c0d2f78..b0328247318128acd8f3cd585d66a36872d2e234 100644
GIT binary patch
delta 69
zcmbQUpZU~2W}ef$yj%=GVCDWbYa`DAPq}FQqSS(X{o<lz{j~h#?D*o6#FEtb<jkVv
Y(##V5$u?dZjQW!ki-k8=c&SVU06-KNOaK4?

delta 162
zcmX@Lk9p31W}ef$yj%=G@P#`eZ6nVC&-%5=RxzQ)sYS&xc{!DqmKLVwG5&d}E=8GT
zsS3IZ0U4P&nFYl$!Ql!4Mfq8&$tA@x?wKVXrAf{?`FW|ux_+tU0nRaQ`N`SAC5a`e
z&Y4BYrI{s$1_m+3MaeN~K=JrukVJekL?)&rHMbzYC^08KF)t;)xM1>6Pf5m@&B9*h
FQvrTxJNp0t

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/temporal_functions.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/temporal_functions.cpython-312.pyc
index af7bd1a305968947709ac78c1f65105341e6582e..dd081e316dcb349fe84ebc3410f9babd69a0eb12 100644
GIT binary patch
delta 69
zcmdnf#`vn0k>@loFBbz4Sh;`A+Q?(dD;KR_lv<FlUtE-|pO&AT9ba6MSdto_oLQ7y
YnpvVhc_Xg|qyFTN0>Yc$^7@+s0262zw*UYD

delta 162
zcmaFW%DAVEk>@loFBbz4Ov{u@+sI?eTfa8hDkiizwWv5IFQ?Md(!$g{#y>CBr6{v3
zRY6xFAR{v;v!FO8I9ws1C_gJTxuiJ8J+s84G|4$9KQFad*Dtj^z&XY(KRG+NB(Wsb
zIkPCaG_%Cez#yi$C^;q#C>~!7l88@+$i$SS<`(1^CFaB@=B30J7fjCMm1K<B+`*e<
F3IM}mIrsno

diff --git a/src/fock_state_circuit/visualization/__pycache__/draw.cpython-312.pyc b/src/fock_state_circuit/visualization/__pycache__/draw.cpython-312.pyc
index 87227ef292852e3c79d2e132f551fa92543a888f..a5aaa0e06ccfa94ba64e44156af85ad85d50b904 100644
GIT binary patch
delta 73
zcmZ2Bm-)&ZW}ef$yj%=GVCDWbYa`DyUmYX;qSS(X{o<lz{j~h#?D*o6#FEtb<jkVv
b(##V5vdrSr#GK5k#FEVXJpIiDer62-t)CkD

delta 156
zcmcaIhk4mtW}ef$yj%=G@b61(+D4vdzV$81RxzQ)sYS&xc{!DqmKLVwG5&d}E=8GT
zsS3IZ0U4P&nFYl$!Ql!4Mfq8&$tA@x?wKVXrAf{?`FW|ux_+tU0nRaQ`N`SAC5a`e
z&Y4BYrI{s$1_m+3MaeN~K=JrukVJekL?)&zv$!-dC$lQCBr`uRCS|j{pJ@XCgHk$#

diff --git a/src/fock_state_circuit/visualization/__pycache__/plot.cpython-312.pyc b/src/fock_state_circuit/visualization/__pycache__/plot.cpython-312.pyc
index bbb2066372776a6235bf588d53795118c75c1f95..602e4c12b41f57da86c8df7a78f933f14a756ab5 100644
GIT binary patch
delta 782
zcmY*VTTc@~6y9lf3+--MpcE-30U=(B!WN1J-nhh836elHVkFdBm!#VpnO$1cZis{^
zgcwW)UrbDlmnR>9Yz)ei1|Ep`Kn2sL@dx-~QfxFa(dbO^#mUU~eVKF4cV^D-H(+xE
zl<k<!CJL{{+kYhY*jm|_hSTi=6er_?41>Z%JQ()NN<b0)!4M2ig%lwXlBWWZ(5-+H
zipK;^Ihrgr5eGd!g#q;4A)?7<D_Xu_;S?irCQD(_^X9%%l~(mBO5)H#nT4gpCn*Y+
zr)Y^spsJ3(!AKQo?MzkeOK@1EGAYJK1$6))RiC6B2Ce<nS3Tp&Q4S+&78=or;H=1%
zKrtagS<KN=JQQ;n(463^<0Bzi@y93pv8m{F9L>?OKva|s*tr3{6V8Jdh;_PV@;XWd
zeYzhMW$)MR!s%UmcgEh6w)bpVwtU;wn^$*-FJ*?qX}r&d_j)6r?9qHNcb-4wEX!xu
zmNeV4YW>K%vz$G{HKn<xeePJ6uUJYhBp=M|@h9f#EN_`-e||HPJ~D$}@v5`0f!0A4
ztvGGEN`T%w_w<xxDo#fKZ!$W`OeSMU>3o!f)}FQ@Ab1=lum#scNI)jgK_EdONnjd-
zgMl8RRdmG_F?_&Mo<lpXa4lE<-*YRMh8BkQxw<TG)w(+B=_7YYRngEzY`8<4SrqHq
z1fR9`?v&Yh7YBwMHn@n^JqutK^?JQEbNDXDLNOXoi2ks6Q--a?NJUS)kiAFbH4L&1
zwT;@4`<x5>(xh|idTa3$Z6sc7yhzkT<Q^P9Ze^<8cH}8c+x-PX`BpPiz3R(Tm|kBj
z5Xv`b8-oKT_C6`&2`p>;<#E6~#(G49qn)&YNcae?jMac=XnU-_dVm4^0Y$JdYVrcW
I!Wd5Z3wuN0&;S4c

delta 798
zcmXAlO-vI(6vt=wgO)C(MW8K-2^EZ?XoXtjD?pTz7L5Y2A{rM+-7d1Fv}CuXU<!pO
z@(~ka1`Q;h^yopfCL-~GK@$=V@}YvBG%-dGCY7ErL7gdY=l$M4^MCtxW|tS?-b<Ld
zs?}-$j=%S$uEncQGk=(4w}fiGRS{){5BLYGswz)b@XZ0SL6-VOv(?<vE%~KBg?G1^
zTjZcm6haE`l0uE)YYu-fAS%`-G1B7Tok5|;9rA=kha?MODP$`x<rP`ryYPOeLX1vf
z-{JcuCG7D_H#{LJ7~uQjg@^jpnhbm<8fUT+J+g?5m+`4kmOeWdHh^hbpsoXfYCi$M
z5FMp_>FDc$Y>p$>AQ94{n&NuBKn>B4;r`YT69ouzIYnN!rw9O99c8>}_)(3~dAI}H
zj2lmcIEUy6u&CoZ#lL9oGjKNj{D;G$M&FJXu#7J#1rS?eqbw|PmDn{*z|$)#EFOXG
zmz;q!=u3$`wyn#Wj!Z_@28TZyV{5_inyGxtRJ(4feI>jpT<Tgry5ikx>R!jIzI(Gy
z`e5>H7-LBQ^rxu_W}DM(an^OtI-k42m2YPo=a|`oS>|r_M8mc&dxG2DQ32B_N=d`t
zd<`n<jcPfHr9ffqhZX=8R;i!&9-t?sn=Iu97CQdchTvffD_gNED+D2eGJ*jNY&nUJ
zqH()FZ52z!k9O@nl->{@F3V?(Bg9R$+p)4_?6;4i=atLwQ+%K*s!bomMw2B^o<e)h
zNjQqeT`qVNy>l606n%He@HV>AcnR*t=Nn(pxv4YQ$j}jjDS{akJ=bw0hs{|kO8{I}
z97$3V$2it7?@j<*7A_`9NgRB3{;Y<(L*CL6pm=Lr2V@^$-5g)IT*2fMDbEoE2s{{n
h)HS_9Z`d!^$q!Lxd%nTNLfvmbn7p8ILCB?g{{ueT=&Jw#

-- 
2.43.0


From 967b0c7359f9e4a31b662ec8ef53cb0a3cbb0036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 26/46] fix: an empty circuit evaluated without input returns
 the default collection

---
 src/fock_state_circuit/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 512a53e..11d44c7 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -304,6 +304,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         if nodes_to_be_evaluated == ['all']:
             nodes_to_be_evaluated = list(range(len(self.node_list)))
             if len(self.node_list) == 0: # case for empty circuit
+                if collection_of_states_input is None:
+                    collection_of_states_input = CollectionOfStates(self)
                 return collection_of_states_input
         # if nodes_to_be_evaluated is empty return the input state. This was last recursion loop
         elif len(nodes_to_be_evaluated) == 0:
-- 
2.43.0


From 6f798e08e66ac12d668fa2dcef00388054e41b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 27/46] fix: compound circuits created without a list do not
 share their list of circuits

---
 src/fock_state_circuit/compound_circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/compound_circuit.py b/src/fock_state_circuit/compound_circuit.py
index 843ce50..b3b768a 100644
--- a/src/fock_state_circuit/compound_circuit.py
+++ b/src/fock_state_circuit/compound_circuit.py
@@ -47,7 +47,7 @@ class CompoundFockStateCircuit:
     _VERSION = '1.0.0'
 
     def __init__(self, 
-                 list_of_circuits: list = [],
+                 list_of_circuits: list = None,
                  compound_circuit_name: str = None
                 ):
         ''' Constructor for an instance of the class CompoundFockStateCircuit. The instance will be created the list_of_circuits passed as argument. 
@@ -58,7 +58,7 @@ class CompoundFockStateCircuit:
             compound_circuit_name (str, optional): Defaults to '' 
         '''
 
-        self.list_of_circuits = list_of_circuits
+        self.list_of_circuits = [] if list_of_circuits is None else list_of_circuits
         if compound_circuit_name is None:
             self.compound_circuit_name = FockStateCircuit._CIRCUIT_DRAW_DEFAULT_SETTINGS.get('compound_circuit_title','Optical circuit')
         else:
-- 
2.43.0


From 82fa62ba989f86f07121de4631b33884fc35d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 28/46] fix: clean_up does not merge a state with one that has
 additional components

---
 .../__pycache__/circuit.cpython-312.pyc       | Bin 49823 -> 49995 bytes
 .../compound_circuit.cpython-312.pyc          | Bin 8754 -> 8770 bytes
 .../__pycache__/state.cpython-312.pyc         | Bin 38490 -> 38549 bytes
 src/fock_state_circuit/state.py               |   2 ++
 4 files changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/__pycache__/circuit.cpython-312.pyc b/src/fock_state_circuit/__pycache__/circuit.cpython-312.pyc
index a3c7f6c3e3cb060de8fd062b55b0533ce909e346..ac4219dc1a58d52d75b74646b460160ce4fc8676 100644
GIT binary patch
delta 1011
zcmZuvYe-XJ82;XK&Nk0BZC)x{&CF$YO{3v-Yu%<(m#&mBm=@ZiwyD$OHnom5g(A9;
z@j^uf^*@N>gCe>RN<{f1OQMo8|3nZGVi$<)a=zIpqVLD^J?HtJ?|II9I2R7`Lx=d3
zq2y#OQC8~lpMk-tt0}i^X=gGBIZb5F2fHD-gb=A3$J(5jZ7<I9$`I3qMRtKLnOuTt
z)&nxsVk|NfCHq#3ZdxS7CnOAg03`fhT_Dq;bjmJ*kvEbaO{-RE=jJFWJ%YkCKBgj+
zt-{yqwdi%^0FV0}S3#r&YiIJn)3Ob<9Ee!3)=l3yB@T4B&E@|sB$qotp_?i!im|U^
zWy1K~T?P=qY)2uDR9ysDy<Ftu;`3(7RwrplRoV@^iEIc|CdT=*`-<$!!?ARM_&C|R
zBPVgvT8!_jGcn)enPE+g4n(#Fs<5{+9WQtm&Mi*pJxOv>?cX1z1jjr}!A6rdJ2g;^
zo9b-zaNPm{^$kX0DU2HN$F^BG=q-oEsINB}BtdB%6-&Ez?rIDBL#<d`KcbTSibxkV
zlz~brXS8|yN*=;^zHvFH*W-gmn;|`KINkEHaN}L)NMXfrMn2`6bh^9+Pg2d}rjkhl
zsq3M?^toeQf9YxWN%wGe$&(D*1kdF0O82lK@2SCs+Lq{Y7f%*?;OnH1Bj##l&mg%q
z(2=H;z98bBHR?CHqMsAq7KnZgz0`67Ac(e*N!_j(Bnh{NPCzC75Gvsf%}i-w(8{0<
ztsP^~L}!Oz>EIN8J`hz$;tp(&WkM8>#EL+|f!Jc`#CI{XAs)!amL4()qNz6r_R)2{
z766Gx`?^GRlpS>9r=zmDi&6G#N!<#JYIgcUk*4Nd)BW+Ny%di%0o<lvj^EcC+n6=T
z;GfqF;j^<f(2dK^y@qd8d%iJE9iJhD?U%Elnf6~E0;r+&SLUf9g5B5Fz#V%1+G9@l
z_oR3u2>0mE8(A<v-VtU+eGFm@R1A6<bfEoaj*_$E<|A{bpqlaA;+o(Y8828pp<-l0
eP39MV)G#_J(Ji+!)!@azzzWfu0&^vk67mbL(-3U{

delta 861
zcmZutTS!z<6uo=qdiBorm8ngdk9<^ORAQ$2>|sqJsiYv0uX*LnINllWy)#;k<P-(b
zLt@i|G_-ytL=Gs7(vKgJ77{_oV2_VNKl&I<f`YJn#sZ1X$2yC3*4}&VGk;w>a!ngM
z9}}Zv)D!TpJHG#%h@B}*C`n|P2aHc+fllb!!!XiO9FP(*RAz@dRLZ-Hcv?V@MLPx?
z><R#*{8wig9}EbJfF0#Ym|w95EM`_FMX)JMe<X&E6yWQMXzZ=bRP~3I6CmJ{p_bgM
zn$rMFI*v7J{wV9!k_LE`40aI6lHmrZ`uUn7)ihkQUp0|ewRZswv?CcjJqqZlx5X9z
zjR%ac#8HbA-mSP^pOaehSMQJVMKx{?ei$no@}QL18mc4lS#ufGk(K71ESm?x6l^=2
zj1?`X_U#I?PP?oGBP65PX$@+fRx!wnE{nB2Eb}M&%vQHzcZm|K{tl9sw<$rr*=dwz
zyV>Y$H`|P&Xmz%GjZTkMCO2D8LR2u-XmNOC1xHGg$y(bMEy&23@-=e;7MjY)Ws^?8
zK)00NuVHfP;m4{)!(`W~w~om@19E~oX0edB#c*Hrye)xUW_a5+(ku=FIB?mO#<^94
z)Pp+rARH%;+@;$1E~+>wbW?EQXZZu1BeTkT0S58OfR|Ik4ovgw!GnkV#n6MIe>ZsX
zzCSxY-0%{0%u#UQOMezzBwzhS09_>OY9G&e=z|wWZ~3x&Dcw$?PlaHl+2Zn;oYsx`
z;Z_$&)ol~NBzb!0MRbOXS{)Sri7C=@1Fp9w;p3qa=)-qIA7PD54jU7=@G>H%ji;*#
z%E#vcYDv_@4h|H|ovMH-VxD@V5jL+}73hNJWGs*lTzHs_3)6a#aAi76EfQuHvfXS%
t++vX-q^0E3frFt4N<tiyQSdF2(p3xjHKXUC36p2{@=dXjDy69ze*<bl2W9{O

diff --git a/src/fock_state_circuit/__pycache__/compound_circuit.cpython-312.pyc b/src/fock_state_circuit/__pycache__/compound_circuit.cpython-312.pyc
index f14499b9056277d731ef171f2347823203a58e7f..5208c97c557af5f943bc50779ddae7e7e99362a1 100644
GIT binary patch
delta 133
zcmdnwa>#}EG%qg~0}u%I{?D2|k#`jvCj%!#iqOQpvZBH%oGmO-oGHR7TtJ!&EFm)S
zy(FX1W=_Uk9DFl?+NLwqFg7ryGvqODKFR6NEbI>yYhd^w!Juw_LCtO<(*>81&C0wI
c!n}TdnoLDPKv^K|HrYdA4Ws_%uL`z|0LkScPyhe`

delta 117
zcmX@)vdM+_G%qg~0}xobf6XeK$h(RyogsxejcMXuSy7=B&K8y^&J>{(E+Eat$-v2w
zB0TZEB%{b?PR3mvY!iUmrZa55$m!3_?G9u&Fno|;P&C|Z%qt<xTO<S&@zZ2-17g3)
P5ejP<bvLsr+A;zF&)gfQ

diff --git a/src/fock_state_circuit/__pycache__/state.cpython-312.pyc b/src/fock_state_circuit/__pycache__/state.cpython-312.pyc
index 908851dd30ea923dd69ab7b7da824f80d630095f..740e7491da9d540eeb489f0cbf68cb11d225aa3b 100644
GIT binary patch
delta 373
zcmcb$hH2_rCf?J$yj%=Gklyz{t863hr)s7i#>oO@iq=duj46zgK$%+R5@wJJ5U62V
z%?M#3i7~^(vNeFJS!$RjC)UVJ_OB6SX3k=t{4h_7w~VofHHE2`g^{6#C3te7w}LcV
z3Ny&;8s-{S5Dno~0bR11aq^!`8UE}T1_m@es%$AND0;v=h#rWWQdp}vCS^%X_O0a<
zgxSWx0<x1qlWlW)Ef=F)5eHDITahu4EV2L*mOw(2y+{ef7N6W*XTV>y6v)2CkzbOL
zS`?q3Jb8DWG+RALdims!KBANAJxuw5VbH+vfscVts6VPR>VkyMMPA(wrW?X?7vzmE
i3Y&Cr+)+_q!L-<YP4Nbc)wLH@Y%XvpY%ZvOB?bU7O;&&a

delta 363
zcmbQbmg&|SCf?J$yj%=GaJuV%R>DT!Pt{yWj0_CZ8B!Q)nI><v5TAVCi<PgIxrQ-?
zNfM~6mZgSyazTL1<jNXBW|l10$q)0S#LF0qSW}p5nHU*rn1UHf*g@t2!DNRtQKcHT
z6c&)i8kQPX5Dno~0qtB3v<CzxKeQE-%#LATz-fpE&=9a@xFKL3vLPvKRU8nbq(DX$
zGxjtgT*Lx)mnQq>iM3peQXxe^l?-l0#z3;j0z_B>2~D;lrO7+%3=D2b<QJ4=CMV{^
zC+FuD<maX4l@!OP7M3RF6fFg+yTy@Tl95^zpPyV*57N7Q@<$)h$$Ir3f<W&xG%$SN
XV^Gn!z@c!1S8#G;z4+$U^{>PLFn(7f

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 2d1c372..1532d7c 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -599,6 +599,8 @@ class State():
         optical_components_equal = True
         oc = self.state['optical_components']
         other_oc = other_state['optical_components']
+        if len(oc) != len(other_oc):
+            return False
         for component, amplitude_probability in oc.items():
             if component not in other_oc.keys():
                 optical_components_equal = False
-- 
2.43.0


From 0d30596ac3c5d05a83082457badfa572d50ff0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 29/46] fix: clean_up accepts a total probability that exceeds
 1 by rounding only

---
 .../collection_of_states.cpython-312.pyc      | Bin 66806 -> 66877 bytes
 .../collection_of_states.py                   |   3 +++
 2 files changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/__pycache__/collection_of_states.cpython-312.pyc b/src/fock_state_circuit/__pycache__/collection_of_states.cpython-312.pyc
index c4ecc7d46d7713d18a7aeb42f9081cf0bdea3c88..bf7b9bb2a5b61eef7db20d14d4c7181d9a6c9abe 100644
GIT binary patch
delta 1033
zcmYk5eN0<b6u|Fk-+L5F0n?T;<)a%5vk5VieHqQtA<j583frPfwrqSglTnJf1#xwa
zN=yXAh3w39hHcKpWG+j#E^i4{Bx5ccqb-K8EyIT}7RQ(W*nq%HRJ`ZasPB*8`F!Wx
zn{)0`yVTbqWyCC&G$y`dM^_HzTQ6tior4**_*`oW99J)0^rRMiA%dFHP}S7X?Bz~j
zxGa3N5c~zg=eQyAF`U8P$P>zG;Rvk8(k`p|Yh*S{iBQ5fI6jyU-{K#G+o2nuj}{hu
zO75G40fK?hAuy+F?f6mjl`K6cK#@U06z@mBQqGck9@}GXvr6g}LO<S)?S!LP6n`><
zifW3lxuM#_`2g;VN1#i!50zT%-&5)hLW~e6{DAe^OLo0eHrZta2jM%srRAANNd2dM
zLMwQDn(W(zJA^faLc%1v#$1YiqlfCAv4{a|m>({}EfZYc!dMXSQrNCupC||O`;6@q
z*9^+R6s!nm<HpHKXRUO^RAYG8P%i>pu9cJ0X8`6i)G9#}9-k}&Kc(j$k+-tW4<*(G
zozF__a7v9xsxbtOEzD(7(;ft*qHa2nKAF9w?GQL<4m73%OSpNPuwHYS`Ii`)YJv-x
zK7AE_#Q5~funHYB{b0t?8Gnw6+3drPO?Rx@BBs06ZKIo>8Mc*-TA#+(XV>RD%ocYd
zZ&j*0v6-c2{yzU4b8+y?qVSdU7iIO-Y|v8JL!EmGeFA<-!0B{;z}J$iUm)P7CBgEg
zV&!L}@Lj{!r8l?!J0s0f=c{X~tMVRrr^?&x;rfXFyVL*Hf(j-FirLG%p%d$u*T4uS
zG{-u9lCIq3sxDCCZ-hlcKOs3uj4!urpA)v0>hrW5@K#lOy!;c2YXrUZBxyep#s##r
zMsIEMWPW~+yc2|n*!HLb22}0QkOWcu`p><vS(W}e28t0xSi+MluYw!rR^G7bGrA>y
za)G}6LUez&3&z);phEPD_!Qw6!aRXd37KH(*$uD^))G1MOih9b5#G2!BJoyezY!`e
s!y;dk#T$70Fh3iL8DRu6L#HLk0eh%Nf~OvPFAHoZY>SK}FA~{*17?Fen*aa+

delta 977
zcmYk4eN2r}7{JeSd+%Gh-imIQMV~0Q8O_K1gBG<JhRm?ZRM(xATX8DUx?^S|Wo*x=
zWvGp1{!n_2>uWKEd(%>FHgEc{KHN6rB84I6c{6kV_&uNJdCqyxd3Z`1E0cm+6=ez&
zODmtq**g7ZP(&T<RTtD9^9NMxZ`cE)E>Td<%`D6<a`0$jSQQ>41WzGU;S$#gxQzE*
zv*e4yQ4)j6XG7JGE^ml@hZ0=a<Bo*8_|u&V)wtR-C#r(nErh281EEY{MAuH@anJe?
zJ*R{s&k1hq^IVZ@Nxg<;tx2XvQdL3|cC~JS(-`++eh?Ma<h-KXEIa2<G5v)L&ZuE+
z$x7H`N^K^12(5%R+^4M#(>qznUPG8cxR1}Z2vY~Cf7|=CsPG}OI|*HcSi&4aA6mPu
zvVNlhbw{_$U>G%ERKq-6-ph^gj5z`88^Y8ly_><5&se&+r_<>4$Fv3uF73~dO9M(-
zju|(7u;9!7c(74mcByeCt2iLBvrv&BvBQ$h0L*4^`V}*)QB8PTB865{Z~YN=3T>m+
z#B0zqR0!8GX}AemaAJ5JSa99DM-YG}Z-FE;^I|;jO^lotpd|SsEP+YBL>3tQ{qr(r
z<xpT0MQ%+^U8W9tol4|wDt?dfK%hVph>ngv%IA`+36G4W$o+moeT43@?JNI{S5va{
zvJ0~_9lH-^I*ROEpYFdi^8a3x>P)@`?i$|;<=8kL3mxdwX5jmACHynRzYs?Cj)ckC
zW9YZyRIjkLz&v~LZbxR8-N8>${53)E*hgA7;f;VcCEu}U@<0Xr6?uCI1K9p84Vu-M
z?`;ye@#C+Zu;g4K%v5c^OF$OmX50@4CN{td;oWA|$Nfxfw1WO;g{VGP4Lx%!sTloz
zK1diLd?HK`B&y?o=K{bugf21$*Vueah=!$KNcgfUulhlT(k@apqxiY|5A)i}=@N8?
n2hqkjDnT><5wIdRe@~IazKWYGe@n1%+My6ISDC*ul6u}B={PbT

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index e7e45ca..ce45951 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -954,6 +954,9 @@ class CollectionOfStates(Plot):
                 for other_identifier in list_of_same_oc:
                     overall_cumulative_probability = overall_cumulative_probability + self._collection_of_states[other_identifier]['cumulative_probability']
                     del self._collection_of_states[other_identifier]
+                # the sum of the probabilities can exceed 1 due to rounding
+                if 1 < overall_cumulative_probability < 1 + 1E-6:
+                    overall_cumulative_probability = 1.0
                 if overall_cumulative_probability >= self._threshold_probability_for_setting_to_zero:
                     self._collection_of_states[identifier]['cumulative_probability'] = overall_cumulative_probability
                 else:
-- 
2.43.0


From db2b5bb43544492b5f33d5d24f0e6d17a4f6784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 30/46] fix: Popescu-Rohrlich pairs follow the entangled state
 hh + vv for circular polarization

---
 .../popescu_rohrlich_correlations.py                           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 6ed9a57..b28abaa 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -322,6 +322,9 @@ def _measure_collection_with_pr_correlation(collection: CollectionOfStates) -> l
         for box_number, quantumness_indicator in enumerate(quantumness_indicators):
             vector1 = PR_amplitudes.stokes_vectors[PR_amplitudes.photon_indices_per_pair[box_number][0]][0]
             vector2 = PR_amplitudes.stokes_vectors[PR_amplitudes.photon_indices_per_pair[box_number][1]][0]
+            # the photons are correlated as in the state hh + vv. In that state equal linear polarizations go together, but 
+            # left-handed circular polarization goes with right-handed, so the circular component of the second photon is mirrored
+            vector2 = [-vector2[0], vector2[1], vector2[2]]
             alignment_probability = _probability_from_stokes_vectors(vector1, vector2,quantumness_indicator)
             probability = probability*alignment_probability
       
-- 
2.43.0


From 9ee956edde92eb7294cff00aeb3d53b2d29c878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 31/46] fix: entanglement within a Popescu-Rohrlich pair is
 reported

---
 .../popescu_rohrlich_correlations.py                            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index b28abaa..e6510da 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -310,7 +310,7 @@ def _measure_collection_with_pr_correlation(collection: CollectionOfStates) -> l
 
         # first check if we can determine the state of the individual photons. If the overall state
         # is entangled this is not possible and we have to stop
-        if not PR_amplitudes.is_dict_factorable() and PR_amplitudes.are_all_photon_pairs_factorable():
+        if not (PR_amplitudes.is_dict_factorable() and PR_amplitudes.are_all_photon_pairs_factorable()):
             raise Exception("Cannot calculate Popescu_Rohrlich correlation since entanglement has been generated")
 
         # initialize the probability for this outcome from the total amplitudes. This is the highest
-- 
2.43.0


From 1d56d8bb24651a4bbc57586a6a2736ee9b622462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 32/46] fix: outcomes of a Popescu-Rohrlich measurement do not
 share their measurement history

---
 .../popescu_rohrlich_correlations.py                            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index e6510da..57ce712 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -382,7 +382,7 @@ def perform_measurement_popescu_rohrlich_correlation(collection_of_states: Colle
             # prepare the attribute 'measurement_results' for the collapsed state. If there are already
             # measurement results in the input state copy these to the new collapsed state
             if state.measurement_results and state.measurement_results is not None:
-                measurement_results = [previous_values for previous_values in state.measurement_results]   
+                measurement_results = [previous_values for previous_values in new_state.measurement_results]   
                 measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome['probability']})   
             else:
                 measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome['probability']}]
-- 
2.43.0


From f0223a44cb7f9314c1a545898358df3f56e85476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 33/46] fix: a photon resolved measurement followed by another
 one keeps the relative weights of the outcomes

---
 .../interference_group.py                         | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 22f8fc8..b599155 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -611,6 +611,18 @@ class InterferenceGroup():
             correction_needed = expected_probability/measured_probability
             column.column_boson_factor = column.column_boson_factor / np.sqrt(correction_needed)
         return
+
+    def normalize_group_probability(self, group_probability: float):
+        """ Adapt the boson factors of all columns with one common factor such that the total probability for the group
+            becomes 1. The relative contributions of the columns to the outcomes of a next measurement are not affected.
+
+        Args:
+            group_probability (float): total probability for the group before calling this function
+        """
+        if group_probability > 0:
+            for column in self.by_column():
+                column.column_boson_factor = column.column_boson_factor * np.sqrt(group_probability)
+        return
         
 
     def _valid_combinations(self,measurement_projection: list,state_column: ColumnOfStates) -> list:
@@ -959,8 +971,9 @@ class InterferenceGroup():
             new_group.group_cumulative_probability *= probability_for_partial_outcome 
 
             # renormalize column_amplitudes and boson factors
+            sumsquared = sum([np.abs(column.column_amplitude)**2 for column in new_group.by_column()])
             new_group.rescale_column_amplitudes()
-            new_group.rescale_boson_factors()
+            new_group.normalize_group_probability(probability_for_partial_outcome/sumsquared)
            
             # write classical channels per outcome
             values_to_measure = [column_list[0]._column_as_tuple_of_values[channel] for channel in optical_channels_to_measure]
-- 
2.43.0


From a9db8ae4b95ff1130aa989ce51deaf551c079802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 34/46] fix: a photon resolved measurement adds one entry with
 its own copy of the values to the measurement results

---
 .../interference_group.py                                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index b599155..e66a737 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -981,7 +981,7 @@ class InterferenceGroup():
                 for index, value in enumerate(values_to_measure):
                     classical_channel = classical_channels_to_write_to[index]
                     state.classical_channel_values[classical_channel] = value
-                    state.measurement_results.append({'measurement_results':state.classical_channel_values, 'probability': probability_for_partial_outcome})  
+                state.measurement_results.append({'measurement_results':state.classical_channel_values.copy(), 'probability': probability_for_partial_outcome})  
             # add the group for this partial outcome to the list which will be returned
             list_of_groups.append(new_group)
 
-- 
2.43.0


From e0ee45025baed554bc74fef4c5fe02dc4ddd2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 35/46] fix: photon resolved measurement outcomes with photon
 numbers above 9 are not mixed up

---
 .../interference_group.py                                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index e66a737..9cf0f2d 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -947,7 +947,7 @@ class InterferenceGroup():
             if list_of_projections is not None and not optical_component in list_of_projections:
                 continue
             values = column._column_as_tuple_of_values
-            partial_outcome = "".join([str(values[channel]) for channel in optical_channels_to_measure])
+            partial_outcome = tuple([values[channel] for channel in optical_channels_to_measure])
             try:
                 columns_with_this_partial_outcome[partial_outcome].append(column)
             except:
-- 
2.43.0


From 5f452e1db54abbab48223399785b6ff154175976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 36/46] fix: time delay, measurement and plot after
 set_pulse_width for all channels

---
 .../collection_of_state_columns.py                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
index 067dff0..0ecea4f 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
@@ -96,7 +96,7 @@ class CollectionOfStateColumns():
             # column for every state in the collection.
  
             # check if state has 'photon_resolution' information
-            if 'photon_resolution' in state.auxiliary_information.keys():
+            if 'interference_group_identifier' in state.auxiliary_information.get('photon_resolution', dict([])).keys():
                 interference_group_id = state.auxiliary_information['photon_resolution']['interference_group_identifier']
                 if interference_group_id not in self.collection_by_column[initial_state].keys():
                     # create a new interference group with a new column for this state
-- 
2.43.0


From 73e5e20dfe6e7067b2c1a7eaee0bdd6d2e74e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 37/46] fix: a column added under a given identifier carries
 that identifier and the group's

---
 .../interference_group.py                                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 9cf0f2d..beebedd 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -416,6 +416,8 @@ class InterferenceGroup():
             self._interference_group_dict[self._next_new_column_identifier] = column
             return
         else:
+            column.column_identifier = column_identifier
+            column.interference_group_identifier = self.interference_group_identifier
             self._interference_group_dict[column_identifier] = column
             return
             
-- 
2.43.0


From bd7983ddede43982b85c81396150d49b15b7ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 38/46] fix: adding a state whose photon resolution names no
 column no longer raises KeyError

---
 .../interference_group.py                                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index beebedd..b7befc7 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -461,7 +461,7 @@ class InterferenceGroup():
    
         elif 'photon_resolution' in state.auxiliary_information.keys() and column_identifier is None:
             for column in self:
-                if column.column_identifier == state.auxiliary_information['photon_resolution']['column_identifier']:
+                if column.column_identifier == state.auxiliary_information['photon_resolution'].get('column_identifier', None):
                     column.add_state(state = state)
                     break
             else:
-- 
2.43.0


From 32fd99906b6a71e3ab75596e69348cd5cb17794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 39/46] fix: single_photon_states refuses states with several
 components, as documented

---
 .../column_of_states.py                                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index 76deb49..88712e0 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -528,7 +528,7 @@ class ColumnOfStates():
 
         """
         # check is all states have a single optical component
-        if not self.all_states_single_optical_component:
+        if any(len(state.optical_components) != 1 for state in self):
             raise Exception('in function split_in_single_photon_states the input collection should only have states with a single optical component')
         
         # this list will contain the single photon states
-- 
2.43.0


From 184d96989ebecfff6246fc49d3e9e572945ed2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 40/46] fix: total_probability_for_group_all_outcomes works on
 a group whose component names were not computed before

---
 .../interference_group.py                                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index b7befc7..bdb751e 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -870,7 +870,7 @@ class InterferenceGroup():
             # determine all possible outcomes
             list_of_outcomes = []
             for column in self.by_column():
-                list_of_outcomes.append(column.generate_optical_component_corresponding_to_column(use_stored_values=True))
+                list_of_outcomes.append(column.generate_optical_component_corresponding_to_column())
             list_of_outcomes = set(list_of_outcomes)
         else:
             list_of_outcomes = list_of_projections
@@ -881,10 +881,10 @@ class InterferenceGroup():
             list_of_probabilities_for_this_outcome = []
             # explore all possible combinations of state_columns for the bra and ket side
             for state_column_bra_side in self.by_column():
-                if state_column_bra_side.generate_optical_component_corresponding_to_column(use_stored_values = True) != outcome:
+                if state_column_bra_side.generate_optical_component_corresponding_to_column() != outcome:
                     continue
                 for state_column_ket_side in self.by_column():
-                    if state_column_ket_side.generate_optical_component_corresponding_to_column(use_stored_values = True) != outcome:
+                    if state_column_ket_side.generate_optical_component_corresponding_to_column() != outcome:
                         continue
                     probability = self._calculate_probability_for_this_projection_for_these_state_columns(
                                                                         measurement_projection,
-- 
2.43.0


From 47de4791b5d925a50b1ff2f3a5376c29df6769b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:23 +0000
Subject: [PATCH 41/46] fix: the classical values of a valid state are a list,
 whatever its measurement history is

---
 src/fock_state_circuit/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 1532d7c..800bd30 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -411,7 +411,7 @@ class State():
                     return (False,'Invalid state: invalid probability of optical component')
             except:
                 return (False,'Invalid state: issue with optical components')
-        if not type(classical_channel_values) == type([0,0]) and type(measurement_results) == type([0,0]):
+        if type(classical_channel_values) != type([0,0]):
             return (False,'Invalid state: issue with classical channel values')
         if len(classical_channel_values) != self._no_of_classical_channels:
             return (False,'Invalid state: classical channel values does not match with number of classical channels')
-- 
2.43.0


From 019dfd555c6682c9951c38a122320e594c8d7805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 42/46] fix: component names of a valid state are names the
 circuit knows

---
 src/fock_state_circuit/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 800bd30..7d5b335 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -402,7 +402,7 @@ class State():
         if type(optical_components) != type(dict([])):
             return (False,'Invalid state"optical components is not a dictionary')
         for o_component, o_values in optical_components.items():
-            if type(o_component) != type('name') or type(o_values) != type(dict([])):
+            if type(o_component) != type('name') or type(o_values) != type(dict([])) or not o_component in self._dict_of_valid_component_names:
                 return (False,'Invalid state: issue with optical component label')
             try:
                 amplitude = np.cdouble(o_values['amplitude'])
-- 
2.43.0


From c343dfc866ad59ab429ec709583de03162df06b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 43/46] fix: strings with other characters than digits are no
 component names

---
 .../nodes/nodelist/optical_values_component_names.py            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index 702e437..3dd0fc6 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -246,6 +246,8 @@ class ComponentNames():
     
     def __contains__(self, key: str) -> bool:
         """ True if the componet name (as string) represent a valid optical state."""
+        if not (key.isascii() and key.isdigit()):
+            return False
         values = self.__getitem__(key)
         return len(key) == self.digits_per_channel*self.no_of_optical_channels and len(values) == self.no_of_optical_channels and min(values) >= 0 and max(values) < self.length_of_fock_state
     
-- 
2.43.0


From 1966ea4bb99e691b7c8fa2550ce9321ccd9fc3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:01 +0000
Subject: [PATCH 44/46] fix: a circuit with a hamiltonian_operator_gate can be
 drawn

---
 src/fock_state_circuit/nodes/quantum_operator_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index 38c65f5..8868d3d 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -21,7 +21,7 @@ class QuantumOperatorNodes(NodeList):
 
         node_info = {
                     'label' : "Hamiltonian",
-                    'channels_optical' : [channels],
+                    'channels_optical' : channels,
                     'markers' : ['s'],
                     'markercolor' : ['purple'],
                     'markerfacecolor' : ['grey'],
-- 
2.43.0


From b3758b3689e508d9ab3a8ccfabfcb94898514e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:01 +0000
Subject: [PATCH 45/46] fix: draw_station draws only the stations in the list
 given as station_to_draw

---
 src/fock_state_circuit/visualization/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 6b9456f..c4be626 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -1096,7 +1096,7 @@ class Draw():
         elif not isinstance(stations['station_to_draw'],list):
             station_list = [stations['station_to_draw']]
         else: 
-            station_list = list(stations['station_channels'].keys())
+            station_list = list(stations['station_to_draw'])
 
         # create the settings for drawing stations for this circuit
         settings_for_drawing_station = self.create_settings_for_drawing_stations(stations,settings_for_drawing_circuit)
-- 
2.43.0


From c1761ded379127ef8321b6f0a2b68e1c01cb2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:01 +0000
Subject: [PATCH 46/46] fix: combined nodes of one node or too long for a page
 are drawn as individual nodes

---
 src/fock_state_circuit/visualization/draw.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index c4be626..900fc05 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -213,13 +213,14 @@ class Draw():
                     else:
                         number_of_combined_nodes += 1
 
-                nodes_occupied_by_combined_node = number_of_combined_nodes//2
-                # if combined node does not fit on a page treat it as individual nodes (combined node is too large)
-                if (number_of_combined_nodes//2) > len(compound_circuit_settings['node_x_values']):
-                    this_is_a_combined_node = False
-                # if combined node is a single node treat it as a single node
-                if number_of_combined_nodes <= 1:
-                    this_is_a_combined_node = False
+                nodes_occupied_by_combined_node = (1 + number_of_combined_nodes)//2
+
+            # if combined node does not fit on a page treat it as individual nodes (combined node is too large)
+            # if combined node is a single node treat it as a single node
+            # (this holds for all nodes of the combined node, not only for the first one)
+            if this_is_a_combined_node and (nodes_occupied_by_combined_node > len(compound_circuit_settings['node_x_values']) or number_of_combined_nodes <= 1):
+                this_is_a_combined_node = False
+                this_is_first_of_a_combined_node = False
 
             # create a number which in binary format has a 1 for occupied channels and 0 otherwise, this is used to determine
             # whether we can draw nodes on the same x-location (if the nodes do not overlap this makes the circuit drawing more
-- 
2.43.0

