-- Basic CREATE USER tests

CREATE USER user1;
CREATE USER IF NOT EXISTS user2;
CREATE USER OR REPLACE user3;
CREATE USER user4, user5;

-- CREATE USER with authentication
CREATE USER user6 NOT IDENTIFIED;
CREATE USER user7 IDENTIFIED WITH plaintext_password BY 'password123';
CREATE USER user8 IDENTIFIED WITH sha256_password BY 'hash123';
CREATE USER user9 IDENTIFIED WITH ldap SERVER 'ldap_server';
CREATE USER user10 IDENTIFIED WITH kerberos;
CREATE USER user11 IDENTIFIED WITH kerberos REALM 'EXAMPLE.COM';

-- CREATE USER with VALID UNTIL
CREATE USER user33 VALID UNTIL '2026-12-12 00:00:00';
CREATE USER user34 IDENTIFIED WITH plaintext_password BY 'password123' VALID UNTIL '2026-06-15';
CREATE USER user35 VALID UNTIL 'infinity';

-- CREATE USER with host restrictions
CREATE USER user12 HOST LOCAL;
CREATE USER user13 HOST ANY;
CREATE USER user14 HOST NONE;
CREATE USER user15 HOST NAME 'localhost';
CREATE USER user16 HOST REGEXP '.*\.example\.com';
CREATE USER user17 HOST IP '192.168.1.1';
CREATE USER user18 HOST LIKE 'test%';

-- CREATE USER with default roles
CREATE USER user19 DEFAULT ROLE role1;
CREATE USER user20 DEFAULT ROLE role1, role2;
CREATE USER user21 DEFAULT ROLE NONE;

-- CREATE USER with default database
CREATE USER user22 DEFAULT DATABASE test_db;
CREATE USER user23 DEFAULT DATABASE NONE;

-- CREATE USER with grantees
CREATE USER user24 GRANTEES user1;
CREATE USER user25 GRANTEES user1, user2;
CREATE USER user26 GRANTEES ANY;
CREATE USER user27 GRANTEES NONE;
CREATE USER user28 GRANTEES user1, user2 EXCEPT user3;

-- CREATE USER with settings
CREATE USER user29 SETTINGS max_memory_usage=5000000;
CREATE USER user30 SETTINGS PROFILE 'default';
CREATE USER user31 SETTINGS readonly=1, max_memory_usage=5000000;

-- Complex CREATE USER with multiple clauses
CREATE USER user32
    IDENTIFIED WITH plaintext_password BY 'password'
    VALID UNTIL '2025-12-31'
    HOST NAME 'localhost'
    DEFAULT ROLE role1, role2
    DEFAULT DATABASE test_db
    GRANTEES user1, user2 EXCEPT user3
    SETTINGS max_memory_usage=5000000, readonly=1;