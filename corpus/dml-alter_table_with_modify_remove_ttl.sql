ALTER TABLE infra.flow_processed_emails_local ON CLUSTER default_cluster REMOVE TTL;