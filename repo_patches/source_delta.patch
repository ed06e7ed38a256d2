From 81a49e26a72eca4783f88dd69429546fa3e85294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:50 +0000
Subject: [PATCH 01/69] fix: VectorCore preprocesses the reset observation, not
 the (observation, info) tuple

---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 58fdf5d..8e89cf6 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -183,7 +183,7 @@ class VectorCore(object):
             
         initial_state = self._core_logic.get_initial_state(initial_states)
 
-        state, episode_info = self._preprocess(self.env.reset_all(reset_mask, initial_state))
+        state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
         policy_state, current_theta = self.agent.episode_start_vectorized(state, episode_info, reset_mask)
         if self._policy_state is None or policy_state is None:
-- 
2.43.0


From 7008b81c51be27da8c38dd0fbfc1c8813ced9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:33 +0000
Subject: [PATCH 02/69] fix: dataset views index policy states and mask within
 the stored transitions

---
 mushroom_rl/core/_impl/numpy_dataset.py | 12 ++++++------
 mushroom_rl/core/_impl/torch_dataset.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 4e07b2f..8399610 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -172,12 +172,12 @@ class NumpyDataset(Serializable):
                 view._policy_states = np.empty_like(self._policy_states)
                 view._policy_next_states = np.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = np.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class NumpyDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 3bc9066..33c1bcb 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -172,12 +172,12 @@ class TorchDataset(Serializable):
                 view._policy_states = torch.empty_like(self._policy_states)
                 view._policy_next_states = torch.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = torch.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class TorchDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
-- 
2.43.0


From bcc1e900959fe1a81f1830a0655023ca1de62067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:45 +0000
Subject: [PATCH 03/69] fix: Dataset.from_array keeps the policy states and
 does not share the parameter list

---
 mushroom_rl/core/dataset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index c11fd03..257cb34 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -208,15 +208,18 @@ class Dataset(Serializable):
         if theta_list is None:
             dataset._theta_list = list()
         else:
-            dataset._theta_list = theta_list
+            dataset._theta_list = list(theta_list)
 
         dataset._array_backend = ArrayBackend.get_array_backend(backend)
         if backend == 'numpy':
-            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         elif backend == 'torch':
-            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         else:
-            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
 
         state_shape = states.shape[1:]
         action_shape = actions.shape[1:]
-- 
2.43.0


From f41d107113d4b5d76a0c9aa659b6eaa07859953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:10 +0000
Subject: [PATCH 04/69] fix: ListDataset concatenation, views, clearing and
 policy states

---
 mushroom_rl/core/_impl/list_dataset.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index d63d030..a0dc87e 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -32,7 +32,7 @@ class ListDataset(Serializable):
         new_dataset = cls.__new__(cls)
 
         new_dataset._dataset = None
-        new_dataset._policy_dataset = None
+        new_dataset._policy_dataset = list()
         new_dataset._is_stateful = dataset._is_stateful
         new_dataset._mask = None
 
@@ -51,7 +51,7 @@ class ListDataset(Serializable):
             for s, a, r, ss, ab, last, ps, pss in zip(states, actions, rewards, next_states,
                                                       absorbings.astype(bool), lasts.astype(bool),
                                                       policy_states, policy_next_states):
-                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps.item(), pss.item())
+                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps, pss)
         else:
             for s, a, r, ss, ab, last in zip(states, actions, rewards, next_states,
                                              absorbings.astype(bool), lasts.astype(bool)):
@@ -73,23 +73,29 @@ class ListDataset(Serializable):
 
     def clear(self):
         self._dataset = list()
+        self._policy_dataset = list()
+        if self._mask is not None:
+            self._mask = list()
 
     def get_view(self, index, copy=False):
         view = self.create_new_instance(self)
 
         if isinstance(index, (int, slice)):
             view._dataset = self._dataset[index]
+            view._policy_dataset = self._policy_dataset[index]
         else:
             view._dataset = [self._dataset[i] for i in index]
+            if self._is_stateful:
+                view._policy_dataset = [self._policy_dataset[i] for i in index]
 
         if self._mask is not None:
             if isinstance(index, (int, slice)):
-                view._mask = self._mask[index, ...]
+                view._mask = self._mask[index]
             else:
                 view._mask = [self._mask[i] for i in index]
 
         if copy:
-            return view.copy()
+            return deepcopy(view)
         else:
             return view
 
@@ -100,8 +106,7 @@ class ListDataset(Serializable):
         result = self.create_new_instance(self)
         last_step = self._dataset[-1]
         modified_last_step = last_step[:-1] + (True,)
-        result._dataset[-1] = modified_last_step
-        result._dataset = self._dataset + other._dataset
+        result._dataset = self._dataset[:-1] + [modified_last_step] + other._dataset
         result._policy_dataset = self._policy_dataset + other._policy_dataset
 
         return result
@@ -132,11 +137,11 @@ class ListDataset(Serializable):
 
     @property
     def policy_state(self):
-        return [step[6] for step in self._dataset]
+        return [step[0] for step in self._policy_dataset]
 
     @property
     def policy_next_state(self):
-        return [step[7] for step in self._dataset]
+        return [step[1] for step in self._policy_dataset]
 
     @property
     def is_stateful(self):
-- 
2.43.0


From bbf4bdf6853a55eacb795ac72d02f3b12cfa051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:10 +0000
Subject: [PATCH 05/69] fix: n_episodes of an empty dataset and of list
 datasets with numpy flags

---
 mushroom_rl/core/_impl/list_dataset.py  | 4 ++--
 mushroom_rl/core/_impl/numpy_dataset.py | 2 +-
 mushroom_rl/core/_impl/torch_dataset.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index a0dc87e..901bf1b 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -159,9 +159,9 @@ class ListDataset(Serializable):
     def n_episodes(self):
         n_episodes = 0
         for sample in self._dataset:
-            if sample[5] is True:
+            if sample[5]:
                 n_episodes += 1
-        if self._dataset[-1][5] is not True:
+        if len(self) > 0 and not self._dataset[-1][5]:
             n_episodes += 1
 
         return n_episodes
diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 8399610..fc68604 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -266,7 +266,7 @@ class NumpyDataset(Serializable):
     def n_episodes(self):
         n_episodes = self.last.sum()
 
-        if not self.last[-1]:
+        if len(self) > 0 and not self.last[-1]:
             n_episodes += 1
 
         return n_episodes
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 33c1bcb..7ae9288 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -266,7 +266,7 @@ class TorchDataset(Serializable):
     def n_episodes(self):
         n_episodes = self.last.sum()
 
-        if not self.last[-1]:
+        if len(self) > 0 and not self.last[-1]:
             n_episodes += 1
 
         return n_episodes
-- 
2.43.0


From 9663df05a1bcb980d0796d91d67d6c3fcbd6d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:18 +0000
Subject: [PATCH 06/69] fix: TorchBackend.from_list with a single non-scalar
 tensor

---
 mushroom_rl/core/array_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 706357c..900bab2 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -396,7 +396,7 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def from_list(array):
-        if len(array) > 1 and isinstance(array[0], torch.Tensor):
+        if len(array) > 0 and isinstance(array[0], torch.Tensor):
             return torch.stack(array)
         else:
             return torch.tensor(array)
-- 
2.43.0


From e62840112c11e35e644be18078286f222cddf7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:06 +0000
Subject: [PATCH 07/69] fix: ExtraInfo.copy keeps the information that was
 already parsed

---
 mushroom_rl/core/extra_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 1b1faf7..5527295 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -208,6 +208,7 @@ class ExtraInfo(Serializable, UserDict):
     def copy(self):
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
         info._storage = self._storage.copy()
+        info._structured_storage = self._structured_storage.copy()
         info._key_mapping = self._key_mapping.copy()
         info._shape_mapping = self._shape_mapping.copy()
         info.data = self.data.copy()
-- 
2.43.0


From 9c35b8d5b6da99429acabc35367ab25dcd093d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:33 +0000
Subject: [PATCH 08/69] fix: ExtraInfo concatenation keeps the order when only
 the second operand was parsed

---
 mushroom_rl/core/extra_info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 5527295..695d147 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -135,6 +135,9 @@ class ExtraInfo(Serializable, UserDict):
         """
         assert(self._n_envs == other.n_envs)
 
+        if self._storage and other._structured_storage:
+            self.parse()
+
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
         info._storage = self._storage + other._storage
 
-- 
2.43.0


From 1d97ee46bbb74a7cee2af6670b9eaaeabcb1ef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 09/69] fix: replay memories do not overwrite the rewards of
 the dataset when computing n-step returns

---
 mushroom_rl/rl_utils/replay_memory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 8b5fb03..ecd73d0 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -61,6 +61,7 @@ class ReplayMemory(Serializable):
         assert self._dataset.is_stateful == dataset.is_stateful
 
         state, action, reward, next_state, absorbing, last = dataset.parse(to=self._agent_info.backend)
+        reward = self._dataset.array_backend.copy(reward)
 
         if self._dataset.is_stateful:
             policy_state, policy_next_state = dataset.parse_policy_state(to=self._agent_info.backend)
@@ -311,6 +312,7 @@ class SumTree(Serializable):
         assert np.all(np.array(priority) > 0.0)
 
         state, action, reward, next_state, absorbing, last = dataset.parse(to=self._agent_info.backend)
+        reward = self.dataset.array_backend.copy(reward)
 
         if self.dataset.is_stateful:
             policy_state, policy_next_state = dataset.parse_policy_state(to=self._agent_info.backend)
-- 
2.43.0


From cca184a93adb3875d5cd53a88131bf22edb4e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 10/69] fix: SumTree keeps the sampled value within the chosen
 subtree when both have the same priority

---
 mushroom_rl/rl_utils/replay_memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index ecd73d0..1248be3 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -427,7 +427,8 @@ class SumTree(Serializable):
             return idx
 
         if self._tree[left] == self._tree[right]:
-            return self._retrieve(s, np.random.choice([left, right]))
+            child = np.random.choice([left, right])
+            return self._retrieve(s if s <= self._tree[left] else s - self._tree[left], child)
 
         if s <= self._tree[left]:
             return self._retrieve(s, left)
-- 
2.43.0


From 208e2b4f9750b39e3b7086656499bb3505f5a04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:55 +0000
Subject: [PATCH 11/69] fix: sequences of a wrapped SequenceReplayMemory do not
 join the newest with the oldest transition

---
 mushroom_rl/rl_utils/replay_memory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 1248be3..f1af406 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -221,7 +221,8 @@ class SequenceReplayMemory(ReplayMemory):
             with torch.no_grad():
 
                 # determine the begin of a sequence
-                begin_seq = np.maximum(i - self._truncation_length + 1, 0)
+                oldest = self._idx if self._full and i >= self._idx else 0
+                begin_seq = np.maximum(i - self._truncation_length + 1, oldest)
                 end_seq = i + 1
 
                 # the sequence can contain more than one trajectory, check to only include one
@@ -233,7 +234,7 @@ class SequenceReplayMemory(ReplayMemory):
                     begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # determine prev action
-                if more_than_one_traj or begin_seq == 0 or self._dataset.last[begin_seq-1]:
+                if more_than_one_traj or begin_seq == oldest or self._dataset.last[begin_seq-1]:
                     prev_actions = self._dataset.action[begin_seq:end_seq - 1]
                     init_prev_action = self._backend.zeros(1, *self._action_space_shape)
                     if len(prev_actions) == 0:
-- 
2.43.0


From 2db1667064c0eae656b2f9a6c4fe61aa24f4e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:43 +0000
Subject: [PATCH 12/69] fix: dueling network with maximum advantage uses the
 values of the maximum

---
 mushroom_rl/algorithms/value/dqn/dueling_dqn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
index 35d7880..d5120cb 100644
--- a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
@@ -36,7 +36,7 @@ class DuelingNetwork(nn.Module):
         if self._avg_advantage:
             q -= advantage.mean(1).reshape(-1, 1)
         else:
-            q -= advantage.max(1).reshape(-1, 1)
+            q -= advantage.max(1).values.reshape(-1, 1)
 
         if action is None:
             return q
-- 
2.43.0


From 3c3e5561003a257596684d7cf7f997827a2304f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:35 +0000
Subject: [PATCH 13/69] fix: Monte Carlo advantage of a single transition

---
 mushroom_rl/rl_utils/value_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/value_functions.py b/mushroom_rl/rl_utils/value_functions.py
index 3b6b338..1efebb7 100644
--- a/mushroom_rl/rl_utils/value_functions.py
+++ b/mushroom_rl/rl_utils/value_functions.py
@@ -23,7 +23,7 @@ def compute_advantage_montecarlo(V, s, ss, r, absorbing, gamma):
         and the advantage function.
     """
     with torch.no_grad():
-        r = r.squeeze()
+        r = r.reshape(-1)
         q = torch.zeros(len(r))
         v = V(s).squeeze()
 
-- 
2.43.0


From 196f64786fba7e2303909ecd6327cad3fac8b8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:51 +0000
Subject: [PATCH 14/69] fix: DDPG masks absorbing next states of a torch replay
 memory

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 57e3bd3..3d6083b 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -134,7 +134,7 @@ class DDPG(DeepAC):
         a = self._target_actor_approximator.predict(next_state, **self._actor_predict_params)
 
         q = self._target_critic_approximator.predict(next_state, a, **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.int()
 
         return q
 
-- 
2.43.0


From 26cca10c62fc0d690755eabd305bd7e23f201f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:06 +0000
Subject: [PATCH 15/69] fix: TD3 smooths the target actions as torch tensors

---
 .../actor_critic/deep_actor_critic/td3.py         | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index 65cf027..7697e3e 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -1,8 +1,9 @@
-import numpy as np
+import torch
 
 from mushroom_rl.algorithms.actor_critic.deep_actor_critic import DDPG
 from mushroom_rl.policy import Policy
 from mushroom_rl.rl_utils.parameters import to_parameter
+from mushroom_rl.utils.torch import TorchUtils
 
 
 class TD3(DDPG):
@@ -81,14 +82,14 @@ class TD3(DDPG):
         """
         a = self._target_actor_approximator(next_state, **self._actor_predict_params)
 
-        low = self.mdp_info.action_space.low
-        high = self.mdp_info.action_space.high
-        eps = np.random.normal(scale=self._noise_std(), size=a.shape)
-        eps_clipped = np.clip(eps, -self._noise_clip(), self._noise_clip.get_value())
-        a_smoothed = np.clip(a + eps_clipped, low, high)
+        low = TorchUtils.to_float_tensor(self.mdp_info.action_space.low)
+        high = TorchUtils.to_float_tensor(self.mdp_info.action_space.high)
+        eps = torch.randn_like(a) * self._noise_std()
+        eps_clipped = torch.clamp(eps, -self._noise_clip(), self._noise_clip.get_value())
+        a_smoothed = torch.clamp(a + eps_clipped, low, high)
 
         q = self._target_critic_approximator.predict(next_state, a_smoothed,
                                                      prediction='min', **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.int()
 
         return q
-- 
2.43.0


From 2b8e0c03b3de0857dcf138c047a5abf242693976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:23 +0000
Subject: [PATCH 16/69] fix: DDPG and TD3 accept the samples of a stateful
 policy

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 3d6083b..454403b 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -96,7 +96,7 @@ class DDPG(DeepAC):
     def fit(self, dataset):
         self._replay_memory.add(dataset)
         if self._replay_memory.initialized:
-            state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
+            state, action, reward, next_state, absorbing, *_ = self._replay_memory.get(self._batch_size())
 
             q_next = self._next_q(next_state, absorbing)
             q = reward + self.mdp_info.gamma * q_next
-- 
2.43.0


From 525bceb873b5d2affae0380579de4a96dee488c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:24 +0000
Subject: [PATCH 17/69] fix: ExtraInfo parses a field that first appears after
 an earlier parse

---
 mushroom_rl/core/extra_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 695d147..1f48d4d 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -78,7 +78,7 @@ class ExtraInfo(Serializable, UserDict):
         if self._structured_storage:
             for key in output:
                 index = length_structured_storage
-                value = self._convert(self._structured_storage[key], to)
+                value = self._convert(self._structured_storage.get(key), to)
                 output[key][:index] = value
         
         #fill output with elements stored in storage
-- 
2.43.0


From d4442e81cd0a4312c875ca39a62a36f9ac83a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 18/69] fix: PPO_BPTT does not join the first episodes of a
 batch in one sequence

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 1fb1551..23925a0 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -111,11 +111,12 @@ class PPO_BPTT(OnPolicyDeepAC):
                 end_seq = i + 1
 
                 # the sequence may contain more than one trajectory, we need to cut it so that it contains only one
-                lasts_absorbing = last[begin_seq - 1: i].int() + absorbing[begin_seq - 1: i].int()
+                first = max(begin_seq - 1, 0)
+                lasts_absorbing = last[first: i].int() + absorbing[first: i].int()
                 begin_traj = torch.where(lasts_absorbing > 0)
                 sequence_is_shorter_than_requested = len(*begin_traj) > 0
                 if sequence_is_shorter_than_requested:
-                    begin_seq = begin_seq + begin_traj[0][-1]
+                    begin_seq = first + begin_traj[0][-1] + 1
 
                 # get the sequences
                 states_old_seq = states_old[begin_seq:end_seq]
-- 
2.43.0


From 8731950ff086dc774cb5f018a547e71aaff3b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:00 +0000
Subject: [PATCH 19/69] fix: VectorPolicy returns the next policy states of all
 its policies

---
 mushroom_rl/policy/vector_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index ac2ec1d..5543b83 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -30,9 +30,9 @@ class VectorPolicy(ParametricPolicy):
             actions.append(action)
 
             if policy_next_state is not None:
-                policy_next_state.append(policy_next_state)
+                policy_next_states.append(policy_next_state)
 
-        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_state)
+        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states)
 
     def set_n(self, n_envs):
         if len(self) < n_envs:
-- 
2.43.0


From a74f12257641259c9f3636c431373772bed84032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:00 +0000
Subject: [PATCH 20/69] fix: VectorPolicy.set_n removes or adds policies to
 reach the requested number

---
 mushroom_rl/policy/vector_policy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index 5543b83..c37c0b9 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -35,11 +35,11 @@ class VectorPolicy(ParametricPolicy):
         return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states)
 
     def set_n(self, n_envs):
-        if len(self) < n_envs:
-            self._policy_vector = self._policy_vector[:n_envs]
         if len(self) > n_envs:
+            self._policy_vector = self._policy_vector[:n_envs]
+        if len(self) < n_envs:
             n_missing = n_envs - len(self)
-            self._policy_vector += [self._policy_vector[0] for _ in range(n_missing)]
+            self._policy_vector += [deepcopy(self._policy_vector[0]) for _ in range(n_missing)]
 
     def get_flat_policy(self):
         return self._policy_vector[0]
-- 
2.43.0


From 5e4a4bf10bb7ab4aca3131d7509fbb110f957eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:30 +0000
Subject: [PATCH 21/69] fix: RunningStandardization accounts for the spread
 within a batch of data

---
 mushroom_rl/rl_utils/running_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index 3df64cd..a2d375e 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -62,7 +62,7 @@ class RunningStandardization(Serializable):
         self._n += batch_size
         alpha = max(batch_size / self._n, self._alpha)
         new_m = (1 - alpha) * self._m + alpha * value.mean(0)
-        new_s = self._s + (value.mean(0) - self._m) * (value.mean(0) - new_m)
+        new_s = self._s + ((value - self._m) * (value - new_m)).sum(0)
         self._m, self._s = new_m, new_s
 
     @property
-- 
2.43.0


From 42956326ed54059be3b6a82ffa4e9857f37cc209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:30 +0000
Subject: [PATCH 22/69] fix: optimizers do not modify the gradient of the
 caller when minimizing, and save eps

---
 mushroom_rl/rl_utils/optimizers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index c59c7f3..9dd2d96 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -75,7 +75,7 @@ class AdaptiveOptimizer(Optimizer):
             grads = args[1]
         lr = self.get_value(*args, **kwargs)
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + lr * grads
 
     def get_value(self, *args, **kwargs):
@@ -114,7 +114,7 @@ class SGDOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + self._lr() * grads
 
 
@@ -147,12 +147,13 @@ class AdamOptimizer(Optimizer):
                             _v='numpy',
                             _beta1='primitive',
                             _beta2='primitive',
+                            _eps='primitive',
                             _t='primitive'
                             )
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
 
         if self._m is None:
             self._t = 0
-- 
2.43.0


From 570ae406794d3ab132c06bc4816449d377bab235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:30 +0000
Subject: [PATCH 23/69] fix: variance parameters do not use their size as
 maximum value

---
 mushroom_rl/rl_utils/variance_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index d1186c1..347ee03 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -27,7 +27,7 @@ class VarianceParameter(Parameter):
         self._x2 = Table(size)
         self._parameter_value = Table(size)
 
-        super().__init__(value, min_value, size)
+        super().__init__(value, min_value, size=size)
 
         self._add_save_attr(
             _exponential='primitive',
@@ -142,7 +142,7 @@ class WindowedVarianceParameter(Parameter):
             _parameter_value='mushroom',
         )
 
-        super(WindowedVarianceParameter, self).__init__(value, min_value, size)
+        super(WindowedVarianceParameter, self).__init__(value, min_value, size=size)
 
     def _compute(self, *idx, **kwargs):
         return self._parameter_value[idx]
-- 
2.43.0


From 95c9b39447e0ecb8415632df4803998b13b3b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 24/69] fix: windowed variance parameters work when they have a
 single entry

---
 mushroom_rl/rl_utils/variance_parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index 347ee03..301b276 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -162,6 +162,9 @@ class WindowedVarianceParameter(Parameter):
         x = kwargs['target']
         factor = kwargs.get('factor', 1.)
 
+        if self._n_updates.table.size == 1:
+            idx = (0,) * self._n_updates.table.ndim
+
         # compute parameter value
         n = self._n_updates[idx]
         self._n_updates[idx] += 1
-- 
2.43.0


From 9cfe5670c1b6d45d72f37df4c0c56e66f63737bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 25/69] fix: MinMaxPreprocessor scales every row of a batch and
 does not modify the observation

---
 mushroom_rl/rl_utils/preprocessors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 921b2e4..acf8014 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -132,8 +132,10 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         if self._run_norm_obs:
             obs = super(MinMaxPreprocessor, self).__call__(obs)
+        else:
+            obs = self._array_backend.copy(obs)
 
-        obs[self._obs_mask] = \
-            ((orig_obs - self._obs_mean) / self._obs_delta)[self._obs_mask]
+        obs[..., self._obs_mask] = \
+            ((orig_obs - self._obs_mean) / self._obs_delta)[..., self._obs_mask]
 
         return obs
-- 
2.43.0


From 14bbd734f61f4debd1d7517f1ae945ab6379c1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 26/69] fix: MinMaxPreprocessor accepts a single bounded
 observation

---
 mushroom_rl/rl_utils/preprocessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index acf8014..26e029c 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -109,10 +109,10 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         self._obs_mask = self._array_backend.concatenate(self._obs_mask)
 
-        assert self._obs_mask.sum() > 0, "All observations have unlimited/extremely large range, " \
+        assert len(self._obs_mask) > 0, "All observations have unlimited/extremely large range, " \
                                          "you should use StandardizationPreprocessor instead."
 
-        self._run_norm_obs = len(self._array_backend.squeeze(self._obs_mask)) != obs_low.shape[0]
+        self._run_norm_obs = len(self._obs_mask) != obs_low.shape[0]
 
         self._obs_mean = self._array_backend.zeros_like(obs_low)
         self._obs_delta = self._array_backend.ones_like(obs_low)
-- 
2.43.0


From d5a35dce75ba95bafbd092ef1c61635222ae937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 27/69] fix: MinMaxPreprocessor with the torch backend accepts
 double precision limits

---
 mushroom_rl/rl_utils/preprocessors.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 26e029c..1828a6a 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -114,10 +114,12 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         self._run_norm_obs = len(self._obs_mask) != obs_low.shape[0]
 
-        self._obs_mean = self._array_backend.zeros_like(obs_low)
-        self._obs_delta = self._array_backend.ones_like(obs_low)
-        self._obs_mean[self._obs_mask] = (obs_high[self._obs_mask] + obs_low[self._obs_mask]) / 2.
-        self._obs_delta[self._obs_mask] = (obs_high[self._obs_mask] - obs_low[self._obs_mask]) / 2.
+        obs_mean = (obs_high[self._obs_mask] + obs_low[self._obs_mask]) / 2.
+        obs_delta = (obs_high[self._obs_mask] - obs_low[self._obs_mask]) / 2.
+        self._obs_mean = self._array_backend.zeros_like(obs_low, dtype=obs_mean.dtype)
+        self._obs_delta = self._array_backend.ones_like(obs_low, dtype=obs_delta.dtype)
+        self._obs_mean[self._obs_mask] = obs_mean
+        self._obs_delta[self._obs_mask] = obs_delta
 
         self._add_save_attr(
             _array_backend='pickle',
-- 
2.43.0


From a0024533d5351232bb0bf1e2ac01157db2d92881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 28/69] fix: where of the array backends returns the selected
 values

---
 mushroom_rl/core/array_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 900bab2..3e525c4 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -216,7 +216,7 @@ class NumpyBackend(ArrayBackend):
         if x is None:
             return np.where(cond)
         else:
-            np.where(cond, x, y)
+            return np.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
@@ -345,7 +345,7 @@ class TorchBackend(ArrayBackend):
         if x is None:
             return torch.where(cond)
         else:
-            torch.where(cond, x, y)
+            return torch.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
-- 
2.43.0


From 919fc89234983e30a02464e9f4468d55dc4a68d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 29/69] fix: a list of tensors converts to torch
 (RunningAveragedWindow mean)

---
 mushroom_rl/core/array_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 3e525c4..c008a7b 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -444,6 +444,9 @@ class ListBackend(ArrayBackend):
 
     @staticmethod
     def to_torch(array):
+        if array is not None and len(array) > 0 and isinstance(array[0], torch.Tensor):
+            return torch.stack(tuple(array)).to(TorchUtils.get_device())
+
         return None if array is None else torch.as_tensor(array, device=TorchUtils.get_device())
 
     @staticmethod
-- 
2.43.0


From c3490a7814bd808c2376608e664373bade1770fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:03 +0000
Subject: [PATCH 30/69] fix: the LQR value gradient accepts a batch of states

---
 mushroom_rl/solvers/lqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/solvers/lqr.py b/mushroom_rl/solvers/lqr.py
index ffd0934..ccb0bb2 100644
--- a/mushroom_rl/solvers/lqr.py
+++ b/mushroom_rl/solvers/lqr.py
@@ -170,7 +170,7 @@ def compute_lqr_V_gaussian_policy_gradient_K(s, lqr, K, Sigma):
 
         dPi = vec_dPi.reshape(Q.shape)
 
-        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s).reshape(-1, 1) \
+        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s) \
                    + gamma * np.trace(Sigma @ B.T @ dPi @ B) / (1.0 - gamma)
 
     return -dJ
-- 
2.43.0


From dd6687b2ec70a63579696459e70768fd2f589eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:26 +0000
Subject: [PATCH 31/69] fix: resetting cart pole and pendulum to a given state
 does not modify it

---
 mushroom_rl/environments/cart_pole.py         | 2 +-
 mushroom_rl/environments/inverted_pendulum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/cart_pole.py b/mushroom_rl/environments/cart_pole.py
index 2111cdd..67cf8e0 100644
--- a/mushroom_rl/environments/cart_pole.py
+++ b/mushroom_rl/environments/cart_pole.py
@@ -59,7 +59,7 @@ class CartPole(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_u = 0
diff --git a/mushroom_rl/environments/inverted_pendulum.py b/mushroom_rl/environments/inverted_pendulum.py
index df060d4..1e8317d 100644
--- a/mushroom_rl/environments/inverted_pendulum.py
+++ b/mushroom_rl/environments/inverted_pendulum.py
@@ -63,7 +63,7 @@ class InvertedPendulum(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
             self._state[0] = normalize_angle(self._state[0])
             self._state[1] = self._bound(self._state[1], -self._max_omega, self._max_omega)
 
-- 
2.43.0


From 12ecc9a449edf91aab94807c5442caa2064c4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:47 +0000
Subject: [PATCH 32/69] fix: car on hill solver returned the value of failing
 one step later

---
 mushroom_rl/solvers/car_on_hill.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/solvers/car_on_hill.py b/mushroom_rl/solvers/car_on_hill.py
index c97954b..e7becd9 100644
--- a/mushroom_rl/solvers/car_on_hill.py
+++ b/mushroom_rl/solvers/car_on_hill.py
@@ -31,7 +31,10 @@ def bfs(mdp, frontier, k, max_k):
         depth of the tree.
 
     """
-    if len(frontier) == 0 or k == max_k:
+    if len(frontier) == 0:
+        return False, k - 1
+
+    if k == max_k:
         return False, k
 
     new_frontier = list()
-- 
2.43.0


From 68a71c54f8ad2c6a9f17a131805627fc32b6b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:47 +0000
Subject: [PATCH 33/69] fix: resetting the segway to a given state does not
 modify it

---
 mushroom_rl/environments/segway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 5cb8965..2c7ffae 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -61,7 +61,7 @@ class Segway(Environment):
 
             self._state = np.array([angle, 0., 0.])
         else:
-            self._state = state
+            self._state = np.array(state, dtype=float)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_x = 0
-- 
2.43.0


From a80474a4fd23c809d3a3a8078265577d61798484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:47 +0000
Subject: [PATCH 34/69] fix: segway observation space had swapped angle limits

---
 mushroom_rl/environments/segway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 2c7ffae..eb781ea 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -36,7 +36,7 @@ class Segway(Environment):
 
         self._random = random_start
 
-        high = np.array([-np.pi / 2, 15, 75])
+        high = np.array([np.pi / 2, 15, 75])
 
         # MDP properties
         dt = 1e-2
-- 
2.43.0


From 8e060ee56c9c4f0ffb962fb339e0403d64801798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:02 +0000
Subject: [PATCH 35/69] fix: GPOMDP forgets the rewards of an unfinished
 episode

---
 mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
index bf2acd6..736fd11 100644
--- a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
+++ b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
@@ -99,4 +99,5 @@ class GPOMDP(PolicyGradient):
     def _init_update(self):
         self.sum_d_log_pi = np.zeros(self.policy.weights_size)
         self.list_sum_d_log_pi = list()
+        self.list_reward = list()
         self.step_count = 0
-- 
2.43.0


From 732cd65872515c63aaf0ed2bfb21c71a05f0c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:40 +0000
Subject: [PATCH 36/69] fix: vectorized episode start of black-box optimization
 without context, deterministic mode with context

---
 .../black_box_optimization/black_box_optimization.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
index f7d0daa..e225193 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
@@ -64,11 +64,14 @@ class BlackBoxOptimization(Agent):
 
         theta = self.policy.get_weights()
         if start_mask.any():
-            context = self._context_builder(initial_states, **episode_info)[start_mask]
+            context = self._context_builder(initial_states, **episode_info)
+            if context is not None:
+                context = context[start_mask]
 
             if self._deterministic:
                 if context is not None:
-                    theta[start_mask] = self.distribution.mean(context[start_mask])
+                    theta[start_mask] = self._agent_backend.from_list(
+                        [self.distribution.mean(context[i]) for i in range(start_mask.sum())])
                 else:
                     theta[start_mask] = self._agent_backend.from_list(
                         [self.distribution.mean() for _ in range(start_mask.sum())])
-- 
2.43.0


From a3931b70cdfdbba6ac44a9e77ccadbec847d7b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:40 +0000
Subject: [PATCH 37/69] fix: PGPE evaluates each episode in its own context

---
 .../algorithms/policy_search/black_box_optimization/pgpe.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
index 66054c0..f2f1578 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
@@ -34,7 +34,9 @@ class PGPE(BlackBoxOptimization):
             J_i = Jep[i]
             theta_i = theta[i]
 
-            diff_log_dist = self.distribution.diff_log(theta_i, context)
+            context_i = context[i] if context is not None else None
+
+            diff_log_dist = self.distribution.diff_log(theta_i, context_i)
             diff_log_dist2 = diff_log_dist**2
 
             diff_log_dist_list.append(diff_log_dist)
-- 
2.43.0


From 70d0d62dc877c6062140c24d2429b4fd78f24f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:40 +0000
Subject: [PATCH 38/69] fix: ePPO evaluates the old density in the context

---
 .../algorithms/policy_search/black_box_optimization/eppo.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 7beb2ef..7f6ae63 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -46,7 +46,7 @@ class ePPO(BlackBoxOptimization):
 
         Jep = (Jep - J_mean) / (J_std + 1e-8)
 
-        old_dist = self.distribution.log_pdf(theta).detach()
+        old_dist = self.distribution.log_pdf(theta, context).detach()
 
         if self.distribution.is_contextual:
             full_batch = (theta, Jep, old_dist, context)
-- 
2.43.0


From 6b2ce99195d1c83afdb0289dd961fab57c982a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 39/69] fix: torch features of a single basis lose the feature
 axis

---
 mushroom_rl/features/_implementations/torch_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/features/_implementations/torch_features.py b/mushroom_rl/features/_implementations/torch_features.py
index 7129903..5e8de0b 100644
--- a/mushroom_rl/features/_implementations/torch_features.py
+++ b/mushroom_rl/features/_implementations/torch_features.py
@@ -15,7 +15,7 @@ class TorchFeatures(FeaturesImplementation):
         x = TorchUtils.to_float_tensor(np.atleast_2d(x))
 
         y_list = [self._phi[i].forward(x) for i in range(len(self._phi))]
-        y = torch.cat(y_list, 1).squeeze()
+        y = torch.cat(y_list, 1)
 
         y = y.detach().cpu().numpy()
 
-- 
2.43.0


From 5038b079d2cd55c178bfd8b2a753c5d02240183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 40/69] fix: basis tensor with a single center drops the
 feature axis

---
 mushroom_rl/features/tensors/basis_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/features/tensors/basis_tensor.py b/mushroom_rl/features/tensors/basis_tensor.py
index 1f72131..5abe711 100644
--- a/mushroom_rl/features/tensors/basis_tensor.py
+++ b/mushroom_rl/features/tensors/basis_tensor.py
@@ -45,9 +45,9 @@ class GenericBasisTensor(nn.Module):
         phi = self._basis_function(delta, self._scale)
 
         if self._normalized:
-            return self._normalize(phi).squeeze(-1)
+            return self._normalize(phi)
         else:
-            return phi.squeeze(-1)
+            return phi
 
     def _basis_function(self, delta, scale):
         raise NotImplementedError
-- 
2.43.0


From 46afd43a10ad4898c6323b0426dc2fc321eee65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 41/69] fix: tile index out of range at the rounded upper end
 of a tiling

---
 mushroom_rl/features/tiles/tiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/features/tiles/tiles.py b/mushroom_rl/features/tiles/tiles.py
index ba7b81b..8d2c766 100644
--- a/mushroom_rl/features/tiles/tiles.py
+++ b/mushroom_rl/features/tiles/tiles.py
@@ -53,7 +53,7 @@ class Tiles:
         for i, (r, N) in enumerate(zip(self._range, self._n_tiles)):
             if r[0] <= x[i] < r[1]:
                 width = r[1] - r[0]
-                component_index = int(np.floor(N * (x[i] - r[0]) / width))
+                component_index = min(int(np.floor(N * (x[i] - r[0]) / width)), N - 1)
                 tile_index += component_index * multiplier
                 multiplier *= N
             else:
-- 
2.43.0


From 195e19064c8279f1dbea95bc4451a86bf55f3400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 42/69] fix: CMAC keeps the batch axis, ignores states outside
 the tilings and applies the features once in diff

---
 mushroom_rl/approximators/parametric/cmac.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 90b7c70..e273ea4 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -41,13 +41,14 @@ class CMAC(LinearApproximator):
 
         """
         y_hat = self.predict(x)
-        delta_y = np.atleast_2d(y - y_hat)
+        delta_y = np.atleast_2d(y.reshape(y_hat.shape) - y_hat)
         if self._w.shape[0] > 1:
             delta_y = delta_y.T
 
         phi = np.atleast_2d(self._phi(x))
         sum_phi = np.sum(phi, axis=0)
         n = np.sum(phi, axis=1, keepdims=True)
+        n[n == 0] = 1.
         phi_n = phi / n
         sum_phi[sum_phi == 0] = 1.
 
@@ -75,7 +76,7 @@ class CMAC(LinearApproximator):
         for i, idx in enumerate(indexes):
             prediction[i] = np.sum(self._w[:, idx], axis=-1)
 
-        return prediction.squeeze()
+        return prediction[:, 0] if prediction.shape[1] == 1 else prediction
 
     def diff(self, state, action=None):
         """
@@ -89,6 +90,4 @@ class CMAC(LinearApproximator):
             The derivative of the output w.r.t. ``state``, and ``action`` if provided.
 
         """
-
-        phi = self._phi(state)
-        return super().diff(phi, action)
+        return super().diff(state, action)
-- 
2.43.0


From e1471b05adc2ff405e15a11820f11f00bb4f5acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 43/69] fix: EnsembleTable predicts a single state and action

---
 mushroom_rl/approximators/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/approximators/ensemble.py b/mushroom_rl/approximators/ensemble.py
index d1f65c7..bcb2c88 100644
--- a/mushroom_rl/approximators/ensemble.py
+++ b/mushroom_rl/approximators/ensemble.py
@@ -91,7 +91,7 @@ class Ensemble(Serializable):
                     raise NotFittedError
 
             prediction = self._prediction if prediction is None else prediction
-            if isinstance(predictions[0], np.ndarray):
+            if not isinstance(predictions[0], torch.Tensor):
                 predictions = np.array(predictions)
             else:
                 predictions = torch.stack(predictions, axis=0)
-- 
2.43.0


From e7547319fbab1550bb049eba9ea638eba89fb563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 44/69] fix: full save restores the nested objects that are
 saved only then

---
 mushroom_rl/core/dataset.py       | 1 +
 mushroom_rl/core/serialization.py | 6 ++----
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 257cb34..fd7dd05 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -31,6 +31,7 @@ class DatasetInfo(Serializable):
 
         self._add_save_attr(
             backend='primitive',
+            device='primitive',
             gamma='primitive',
             horizon='primitive',
             state_shape='primitive',
diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index fc0a2a3..8fade01 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -116,16 +116,14 @@ class Serializable(object):
             setattr(loaded_object, '_save_attributes', save_attributes)
 
             for att, method in save_attributes.items():
-                mandatory = not method.endswith('!')
-                method = method[:-1] if not mandatory else method
+                method = method[:-1] if method.endswith('!') else method
                 file_name = Serializable._append_folder(
                     folder, '{}.{}'.format(att, method)
                 )
 
                 if method == 'primitive' and att in primitive_dictionary:
                     setattr(loaded_object, att, primitive_dictionary[att])
-                elif file_name in zip_file.namelist() or \
-                        (method == 'mushroom' and mandatory):
+                elif file_name in zip_file.namelist() or method == 'mushroom':
                     load_method = getattr(cls, '_load_{}'.format(method))
                     if load_method is None:
                         raise NotImplementedError('Method _load_{} is not'
-- 
2.43.0


From 31d5944d7d0e17f0da39bc22e46498ffe0e47728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 45/69] fix: a loaded ExtraInfo lacks the number of
 environments and the backend

---
 mushroom_rl/core/extra_info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 1f48d4d..4af00fd 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -257,6 +257,9 @@ class ExtraInfo(Serializable, UserDict):
     def _add_all_save_attr(self):
         self._add_save_attr(
             data='primitive',
+            _n_envs='primitive',
+            _array_backend='primitive',
+            _device='primitive',
             _storage='primitive',
             _structured_storage='primitive',
             _key_mapping='primitive',
-- 
2.43.0


From de377127ac4f0dd78d467a2dd7038ee38f9138b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 46/69] fix: torch and list datasets lose mask and tensor
 policy states when saved

---
 mushroom_rl/core/_impl/list_dataset.py  | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index 901bf1b..d08276b 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -170,6 +170,7 @@ class ListDataset(Serializable):
         self._add_save_attr(
             _dataset='pickle',
             _policy_dataset='pickle',
-            _is_stateful='primitive'
+            _is_stateful='primitive',
+            _mask='pickle'
         )
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 7ae9288..6856e76 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -282,7 +282,8 @@ class TorchDataset(Serializable):
             _next_states='torch',
             _absorbing='torch',
             _last='torch',
-            _policy_states='numpy',
-            _policy_next_states='numpy',
+            _policy_states='torch',
+            _policy_next_states='torch',
+            _mask='torch',
             _len='primitive'
         )
\ No newline at end of file
-- 
2.43.0


From 7f31c110ed40ea63caac12bb635cf3efaeaf37be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 47/69] fix: a partial save of a prioritized memory keeps
 priorities without data

---
 mushroom_rl/rl_utils/replay_memory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index f1af406..f892886 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -291,9 +291,9 @@ class SumTree(Serializable):
         super().__init__()
         self._add_save_attr(
             _max_size="primitive",
-            _idx="primitive",
-            _full="primitive",
-            _tree="numpy",
+            _idx="primitive!",
+            _full="primitive!",
+            _tree="numpy!",
             _mdp_info="mushroom",
             _agent_info="mushroom",
             dataset="mushroom!")
@@ -466,6 +466,9 @@ class SumTree(Serializable):
 
     def _post_load(self):
         if self.dataset is None:
+            self._tree = np.zeros(2 * self._max_size - 1)
+            self._idx = 0
+            self._full = False
             dataset_info = DatasetInfo.create_replay_memory_info(self._mdp_info, self._agent_info)
             self.dataset = Dataset(dataset_info, n_steps=self._max_size)
 
-- 
2.43.0


From d6b0ded13e3019ca5e10baf3e2dae1a1a609764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 48/69] fix: a loaded Mellowmax policy uses a stale copy of the
 action values

---
 mushroom_rl/policy/td_policy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/td_policy.py b/mushroom_rl/policy/td_policy.py
index 9665802..93b13d7 100644
--- a/mushroom_rl/policy/td_policy.py
+++ b/mushroom_rl/policy/td_policy.py
@@ -189,7 +189,7 @@ class Mellowmax(Boltzmann):
 
             self._add_save_attr(
                 _omega='primitive',
-                _outer='primitive',
+                _outer='none',
                 _beta_min='primitive',
                 _beta_max='primitive',
             )
@@ -236,3 +236,6 @@ class Mellowmax(Boltzmann):
 
     def update(self, *idx):
         raise RuntimeError('Cannot update the beta parameter of Mellowmax policy')
+
+    def _post_load(self):
+        self._beta._outer = self
-- 
2.43.0


From ea3b4b6bb3403161187197cc7343e0a9bbadb893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 49/69] fix: a loaded ePPO agent optimizes parameters that are
 not those of its distribution

---
 .../algorithms/policy_search/black_box_optimization/eppo.py   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 7f6ae63..0e37c4d 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -3,6 +3,7 @@ import torch
 from mushroom_rl.algorithms.policy_search.black_box_optimization import BlackBoxOptimization
 from mushroom_rl.utils.minibatches import minibatch_generator
 from mushroom_rl.rl_utils.parameters import to_parameter
+from mushroom_rl.utils.torch import TorchUtils
 
 
 class ePPO(BlackBoxOptimization):
@@ -74,3 +75,6 @@ class ePPO(BlackBoxOptimization):
             context_i = None
 
         return theta_i, context_i, Jep_i, old_dist_i
+
+    def _post_load(self):
+        TorchUtils.update_optimizer_parameters(self._optimizer, list(self.distribution.parameters()))
-- 
2.43.0


From 815b0079ae31ac297aac2807fef3568a9c092d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 50/69] fix: a loaded COPDAC-Q agent updates a mean that is not
 that of its policy

---
 .../algorithms/actor_critic/classic_actor_critic/copdac_q.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index f571b8d..da4c15c 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -97,3 +97,6 @@ class COPDAC_Q(Agent):
         delta = action - self._mu(state)
 
         return delta.dot(grad_mu)
+
+    def _post_load(self):
+        self._mu = getattr(self.policy, '_approximator', self._mu)
-- 
2.43.0


From 144f286ebc1a8f35484c9b4f00b8a6a2a45efa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:26 +0000
Subject: [PATCH 51/69] fix: environments in other processes are reset to the
 state of the first one

---
 mushroom_rl/core/multiprocess_environment.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index 6f56685..f91048f 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -21,11 +21,7 @@ def _env_worker(remote, env_class, use_generator, args, kwargs):
                 res = env.step(action)
                 remote.send(res)
             elif cmd == 'reset':
-                if data is not None:
-                    init_states = data[0]
-                else:
-                    init_states = None
-                res = env.reset(init_states)
+                res = env.reset(data)
                 remote.send(res)
             elif cmd == 'render':
                 record = data
-- 
2.43.0


From 4785a2fa5f8785308280203677e74301c5314a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:26 +0000
Subject: [PATCH 52/69] fix: resetting a Gym environment to a state does not
 change the environment

---
 mushroom_rl/environments/gym_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/gym_env.py b/mushroom_rl/environments/gym_env.py
index 191d8c8..8894d42 100644
--- a/mushroom_rl/environments/gym_env.py
+++ b/mushroom_rl/environments/gym_env.py
@@ -84,7 +84,7 @@ class Gym(Environment):
             return np.atleast_1d(self.env.reset()), {}
         else:
             self.env.reset()
-            self.env.state = state
+            self.env.unwrapped.state = state
 
             return np.atleast_1d(state), {}
 
-- 
2.43.0


From d30a0b8b67e503604ff8aaf6f9ab16ab7cdd8d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:26 +0000
Subject: [PATCH 53/69] fix: MultiMuJoCo resets without information and reads
 the first model through every helper

---
 mushroom_rl/environments/mujoco.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e76bec3..96b7c70 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -619,7 +619,7 @@ class MultiMuJoCo(MuJoCo):
 
         # Read the observation spec to build a mapping at every step. It is
         # ensured that the values appear in the order they are specified.
-        self.obs_helpers = [ObservationHelper(observation_spec, self._model, self._data,
+        self.obs_helpers = [ObservationHelper(observation_spec, m, d,
                                               max_joint_velocity=max_joint_vel)
                             for m, d in zip(self._models, self._datas)]
         self.obs_helper = self.obs_helpers[self._current_model_idx]
@@ -628,7 +628,7 @@ class MultiMuJoCo(MuJoCo):
 
         # multi envs with different obs limits are now allowed, do sanity check
         for oh in self.obs_helpers:
-            low, high = self.obs_helper.get_obs_limits()
+            low, high = oh.get_obs_limits()
             if not np.array_equal(low, observation_space.low) or not np.array_equal(high, observation_space.high):
                 raise ValueError("The provided environments differ in the their observation limits. "
                                  "This is not allowed.")
@@ -688,7 +688,7 @@ class MultiMuJoCo(MuJoCo):
             self._viewer.load_new_model(self._model)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
-        return self._modify_observation(self._obs)
+        return self._modify_observation(self._obs), {}
 
     @property
     def more_than_one_env(self):
-- 
2.43.0


From 0dc259d3a8d832b102e8da79a1ffadb727ea991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:31 +0000
Subject: [PATCH 54/69] fix: ProMP cannot draw an action and modifies the
 policy state

---
 mushroom_rl/policy/promps.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index d074a3e..9c88789 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -40,23 +40,23 @@ class ProMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _duration='primitive',
             _sigma='numpy',
             _periodic='primitive'
         )
 
-    def __call__(self, state, action):
-        z = self._compute_phase(state)
+    def __call__(self, state, action, policy_state):
+        z = self._compute_phase(state, policy_state)
         mu = self._approximator(self._phi(z))
 
         if self._sigma is None:
-            return 1.0 if mu == action else 0.0
+            return 1.0 if np.allclose(mu, action) else 0.0
         else:
             return multivariate_normal.pdf(action, mu, self._sigma)
 
     def draw_action(self, state, policy_state):
-        z = self._compute_phase(state)
+        z = self._compute_phase(state, policy_state)
 
         mu = self._approximator(self._phi(z))
 
@@ -75,10 +75,10 @@ class ProMP(ParametricPolicy):
             state (np.ndarray): The current state of the system.
 
         """
-        policy_state += 1
+        policy_state = policy_state + 1
 
-        if not self._periodic and policy_state >= self._duration:
-            policy_state = self._duration
+        if not self._periodic:
+            policy_state = np.minimum(policy_state, self._duration)
 
         return policy_state
 
@@ -114,4 +114,4 @@ class ProMP(ParametricPolicy):
         self._duration = duration - 1
 
     def reset(self):
-        return 0
+        return np.zeros(self.policy_state_shape)
-- 
2.43.0


From f998a3bcbc53659ee73b9b69cc5638c293542daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:31 +0000
Subject: [PATCH 55/69] fix: DMP lacks the policy interface and returns its
 internal state

---
 mushroom_rl/policy/dmp.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index 74a9aa5..e2216bf 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -12,6 +12,8 @@ class DMP(ParametricPolicy):
 
     """
     def __init__(self, mu, phi, goal, dt, tau, alpha_v, beta_v, alpha_z, beta_z):
+        super().__init__()
+
         self._approximator = mu
         self._phi = phi
 
@@ -34,7 +36,7 @@ class DMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _dt='primitive',
             _tau='primitive',
             _alpha_v='numpy',
@@ -48,13 +50,13 @@ class DMP(ParametricPolicy):
             _y='numpy'
         )
 
-    def __call__(self, state, action):
-        return 1.0 if np.allclose(self._y == action) else 0.0
+    def __call__(self, state, action, policy_state=None):
+        return 1.0 if np.allclose(self._y, action) else 0.0
 
-    def draw_action(self, state):
+    def draw_action(self, state, policy_state=None):
         self.update_system(state)
 
-        return self._y
+        return self._y.copy(), None
 
     def set_goal(self, goal):
         self._g = goal
-- 
2.43.0


From 5a5bee314b2986b296d708b0e8fc62d3d6995528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:31 +0000
Subject: [PATCH 56/69] fix: recurrent policy fails for one-dimensional actions
 and after loading

---
 mushroom_rl/policy/recurrent_torch_policy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 5196084..c986772 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -14,6 +14,11 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         self._log_std_min = to_parameter(log_std_min)
         self._log_std_max = to_parameter(log_std_max)
 
+        self._add_save_attr(
+            _log_std_min='mushroom',
+            _log_std_max='mushroom'
+        )
+
     def reset(self):
         return torch.zeros(self.policy_state_shape)
 
@@ -35,7 +40,9 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         return action, policy_state
 
     def log_prob_t(self, state, action, policy_state, lengths):
-        return self.distribution_t(state, policy_state, lengths).log_prob(action.squeeze())[:, None]
+        dist = self.distribution_t(state, policy_state, lengths)
+
+        return dist.log_prob(action.view(dist.mean.shape))[:, None]
 
     def entropy_t(self, state=None):
         return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._log_sigma)
-- 
2.43.0


From 542a2fd2cee32af00bb538e511f7912f6fa5301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:31 +0000
Subject: [PATCH 57/69] fix: a loaded PPO_BPTT agent has no truncation length

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 23925a0..188d1c4 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -67,6 +67,7 @@ class PPO_BPTT(OnPolicyDeepAC):
             _lambda='mushroom',
             _V='mushroom',
             _iter='primitive',
+            _truncation_length='primitive',
             _dim_env_state='primitive'
         )
 
-- 
2.43.0


From d2504449c8179aad7966a3fd43f4ab7521012ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:31 +0000
Subject: [PATCH 58/69] fix: MORE doubles the mixed terms of its quadratic
 model of the returns

---
 .../algorithms/policy_search/black_box_optimization/more.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index 12356ca..939e2b8 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -94,7 +94,7 @@ class MORE(BlackBoxOptimization):
         R = np.zeros((n,n ))
         uid = np.triu_indices(n)
         R[uid] = beta[1 + n:]
-        R.T[uid] = R[uid]
+        R = 0.5 * (R + R.T)
         
         w, v = np.linalg.eig(R)
         w[w >= 0.0] = -1e-12
-- 
2.43.0


From 44035455a19bda2c9657270a9de1ded26d7a58fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:31 +0000
Subject: [PATCH 59/69] fix: a loaded MORE agent lacks its regressors

---
 .../policy_search/black_box_optimization/more.py       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index 939e2b8..d717d7e 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -52,9 +52,13 @@ class MORE(BlackBoxOptimization):
         super().__init__(mdp_info, distribution, policy)
 
         self._add_save_attr(
-            eps='primitive',
-            h0='primitive',
-            kappa='primitive'
+            eps='mushroom',
+            h0='mushroom',
+            kappa='mushroom',
+            phi_quadratic_='pickle',
+            phi_linear_='pickle',
+            regressor_quadratic='mushroom',
+            regressor_linear='mushroom'
         )
 
     def _update(self, Jep, theta, context):
-- 
2.43.0


From 8ff0d81062a3701f1eed49c3d4a79fe4a777f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:27 +0000
Subject: [PATCH 60/69] fix: concatenating to an empty dataset marks the last
 transition as an episode end

---
 mushroom_rl/core/_impl/list_dataset.py  | 5 ++---
 mushroom_rl/core/_impl/numpy_dataset.py | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index d08276b..fdfab4e 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -104,9 +104,8 @@ class ListDataset(Serializable):
 
     def __add__(self, other):
         result = self.create_new_instance(self)
-        last_step = self._dataset[-1]
-        modified_last_step = last_step[:-1] + (True,)
-        result._dataset = self._dataset[:-1] + [modified_last_step] + other._dataset
+        modified_last_step = [step[:-1] + (True,) for step in self._dataset[-1:]]
+        result._dataset = self._dataset[:-1] + modified_last_step + other._dataset
         result._policy_dataset = self._policy_dataset + other._policy_dataset
 
         return result
diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index fc68604..854f8fd 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -209,7 +209,8 @@ class NumpyDataset(Serializable):
         result._next_states = np.concatenate((self.next_state, other.next_state))
         result._absorbing = np.concatenate((self.absorbing, other.absorbing))
         result._last = np.concatenate((self.last, other.last))
-        result._last[len(self)-1] = True
+        if len(self) > 0:
+            result._last[len(self)-1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 6856e76..ee6cdb8 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -209,7 +209,8 @@ class TorchDataset(Serializable):
         result._next_states = torch.concatenate((self.next_state, other.next_state))
         result._absorbing = torch.concatenate((self.absorbing, other.absorbing))
         result._last = torch.concatenate((self.last, other.last))
-        result._last[len(self) - 1] = True
+        if len(self) > 0:
+            result._last[len(self) - 1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
-- 
2.43.0


From 8475118da3df95d7d10af000dfada738d8af589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:27 +0000
Subject: [PATCH 61/69] fix: a logger appends to the series of other seeds

---
 mushroom_rl/core/logger/data_logger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index 4426874..a0dd91f 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -1,4 +1,3 @@
-import re
 import pickle
 import numpy as np
 
@@ -126,6 +125,6 @@ class DataLogger(object):
         for file in self._results_dir.iterdir():
             if file.is_file() and file.suffix == '.npy':
                 if file.stem.endswith(self._suffix):
-                    name = re.split(r'-\d+$', file.stem)[0]
+                    name = file.stem[:len(file.stem) - len(self._suffix)]
                     data = np.load(str(file)).tolist()
                     self._data_dict[name] = data
-- 
2.43.0


From e2973e5ac97aec34517fb2632b136b7afde7d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:27 +0000
Subject: [PATCH 62/69] fix: CollectDataset cannot be cleaned before the first
 fit

---
 mushroom_rl/utils/callbacks/collect_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/callbacks/collect_dataset.py b/mushroom_rl/utils/callbacks/collect_dataset.py
index 1510e3d..d48a3b8 100644
--- a/mushroom_rl/utils/callbacks/collect_dataset.py
+++ b/mushroom_rl/utils/callbacks/collect_dataset.py
@@ -24,7 +24,8 @@ class CollectDataset(Callback):
             self._dataset += dataset
 
     def clean(self):
-        self._dataset.clear()
+        if self._dataset is not None:
+            self._dataset.clear()
 
     def get(self):
         return self._dataset
-- 
2.43.0


From 3b92f1ac8cbdcf8c59ea322cfac01c130fb8bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:27 +0000
Subject: [PATCH 63/69] fix: the torch median of an even number of values is
 not their median

---
 mushroom_rl/core/array_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index c008a7b..f38f0fb 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -388,7 +388,7 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def median(array):
-        return array.median()
+        return torch.quantile(array, 0.5)
 
     @staticmethod
     def sqrt(array):
-- 
2.43.0


From cf3be295c3ed99db0be3b72bae40a5ddfe381316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:27 +0000
Subject: [PATCH 64/69] fix: compute_metrics fails for datasets with the list
 back end

---
 mushroom_rl/core/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index fd7dd05..e272365 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -509,6 +509,8 @@ class Dataset(Serializable):
 
         if len(dataset) > 0:
             J = dataset.compute_J(gamma)
+            if isinstance(J, list):
+                J = np.array(J)
             median = self._array_backend.median(J)
             return J.min(), J.max(), J.mean(), median, len(J)
         else:
-- 
2.43.0


From 61636d9fde6cbc889f6bde2f85cc58bfae43a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:27 +0000
Subject: [PATCH 65/69] fix: conversion to an unknown back end returns an
 exception class

---
 mushroom_rl/core/array_backend.py | 2 +-
 mushroom_rl/core/dataset.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index f38f0fb..32c79df 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -45,7 +45,7 @@ class ArrayBackend(object):
         elif to == 'torch':
             return backend.arrays_to_torch(*arrays) if len(arrays) > 1 else backend.arrays_to_torch(*arrays)[0]
         else:
-            return NotImplementedError
+            raise NotImplementedError
 
     @staticmethod
     def convert_to_backend(cls, array):
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index e272365..4c557b3 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -522,7 +522,7 @@ class Dataset(Serializable):
         elif to == 'torch':
             return self._array_backend.arrays_to_torch(*arrays)
         else:
-            return NotImplementedError
+            raise NotImplementedError
 
     def _add_all_save_attr(self):
         self._add_save_attr(
-- 
2.43.0


From f3167151799471f20887a15323e85763404e60f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:48 +0000
Subject: [PATCH 66/69] fix: give every environment its own initial state in
 VectorCore.evaluate

---
 mushroom_rl/core/_impl/vectorized_core_logic.py | 14 ++++++++------
 mushroom_rl/core/vectorized_core.py             |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/mushroom_rl/core/_impl/vectorized_core_logic.py b/mushroom_rl/core/_impl/vectorized_core_logic.py
index 24ec612..3277a98 100644
--- a/mushroom_rl/core/_impl/vectorized_core_logic.py
+++ b/mushroom_rl/core/_impl/vectorized_core_logic.py
@@ -44,13 +44,15 @@ class VectorizedCoreLogic(CoreLogic):
 
         return mask
 
-    def get_initial_state(self, initial_states):
-        if initial_states is None or self._total_episodes_counter >= self._n_episodes:
-            initial_state = None
-        else:
-            initial_state = initial_states[self._total_episodes_counter]  # FIXME
+    def get_initial_state(self, initial_states, reset_mask):
+        if initial_states is None or not reset_mask.any():
+            return None
+
+        # the environments being reset take the next initial states in order, the others are not affected
+        n_started = self._total_episodes_counter + (self._running_envs & ~reset_mask).sum().item()
+        idx = (n_started + reset_mask.cumsum(0) - 1) * reset_mask
 
-        return initial_state
+        return initial_states[idx]
 
     def after_step(self, last):
         n_active_envs = self._running_envs.sum().item()
diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 8e89cf6..7d6872c 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -181,7 +181,7 @@ class VectorCore(object):
         """
         reset_mask = last & mask
             
-        initial_state = self._core_logic.get_initial_state(initial_states)
+        initial_state = self._core_logic.get_initial_state(initial_states, reset_mask)
 
         state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
-- 
2.43.0


From 1deb09e28cbf4817139ec0bfc0f931e38c03dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:48 +0000
Subject: [PATCH 67/69] fix: stopping a video recording that has no frames does
 nothing

---
 mushroom_rl/utils/record.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/utils/record.py b/mushroom_rl/utils/record.py
index 2ffa000..bf6ffca 100644
--- a/mushroom_rl/utils/record.py
+++ b/mushroom_rl/utils/record.py
@@ -64,6 +64,11 @@ class VideoRecorder(object):
 
     def stop(self):
         cv2.destroyAllWindows()
+
+        # no frame has been recorded since the last stop
+        if self._video_writer is None:
+            return
+
         self._video_writer.release()
         self._video_writer = None
         self._counter += 1
-- 
2.43.0


From b859b95070931809afe2aeb421ce001ca53412f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:49 +0000
Subject: [PATCH 68/69] fix: VectorizedDataset.flatten truncates the step
 information with the steps

---
 mushroom_rl/core/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 4c557b3..9514f7d 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -629,6 +629,8 @@ class VectorizedDataset(Dataset):
         flat_theta_list = self._flatten_theta_list()
 
         flat_info = self._info.flatten(self.mask)
+        if n_steps_per_fit is not None:
+            flat_info = flat_info.get_view(slice(n_steps_per_fit))
         flat_episode_info = self._episode_info.flatten(self.mask)
 
         return Dataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
-- 
2.43.0


From 82585c4d6f72c60e209656cb294efd487b4a6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:19 +0000
Subject: [PATCH 69/69] fix: ExtraInfo of the list backend can be parsed again,
 viewed twice and concatenated

---
 mushroom_rl/core/extra_info.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 4af00fd..f71bbf0 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -51,6 +51,8 @@ class ExtraInfo(Serializable, UserDict):
         """
         if to is None:
             to = self._array_backend.get_backend_name()
+        if to == 'list':
+            to = 'numpy'  # the columns of the list backend are numpy arrays
 
         #create key mapping
         for step_data in self._storage:
-- 
2.43.0

