%% Everything is under contract.
